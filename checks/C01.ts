// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { chats, message, messageTypes, rawNames, samples, secretTypes, updateTypes, user } from "../lib/updates.ts";
import { Composer } from "/repo/client/5_composer.ts";
import { Context } from "/repo/client/4_context.ts";

const me = user(1, { username: "Me_bot", isBot: true });
const client = (m: any = me) => ({ getMe: () => Promise.resolve(m) }) as any;

// --- the tree of middleware -------------------------------------------------------------------------------------
const behaviours = ["next", "stop", "twice", "both at once", "fails", "fails after", "late", "returns next", "catches", "is not async", "fails at once"] as const;
type B = typeof behaviours[number];
type Log = string[];
interface Run {
  id: number;
  log: Log;
}
const runs = new Map<number, Run>();
const late = async () => {
  for (let i = 0; i < 5; i++) await Promise.resolve();
};

/** What a middleware function does, given the log of its update and how to go on. */
function behave(name: string, b: B, log: Log, next: () => Promise<void>): any {
  switch (b) {
    case "is not async":
      log.push(name);
      return;
    case "fails at once":
      log.push(name);
      throw new Error(name);
    case "returns next":
      log.push(name);
      return next();
  }
  return (async () => {
    log.push(`${name}>`);
    switch (b) {
      case "next":
        await next();
        break;
      case "twice":
        await next();
        log.push(`${name}-`);
        await next();
        break;
      case "both at once":
        await Promise.all([next(), next()]);
        break;
      case "fails":
        throw new Error(name);
      case "fails after":
        await next();
        log.push(`${name}!`);
        throw new Error(name);
      case "late":
        await late();
        await next();
        await late();
        break;
      case "catches":
        try {
          await next();
        } catch (err) {
          log.push(`${name} catches ${(err as Error).message}`);
        }
        break;
    }
    log.push(`<${name}`);
  })();
}

// The model: a composer is a list that can grow; going on means the rest of the list, then what is after it; a
// second call to go on does nothing.
type Item = (run: Run, next: () => Promise<void>) => Promise<void>;
class Model {
  items: Item[] = [];
  async handle(run: Run, end: () => Promise<void>, i = 0): Promise<void> {
    if (i >= this.items.length) return await end();
    let called = false;
    await this.items[i](run, async () => {
      if (called) return;
      called = true;
      await this.handle(run, end, i + 1);
    });
  }
}

const ops = ["use", "use two", "filter true", "filter false", "filter later true", "branch true", "branch false", "use a composer", "use nothing", "filter by update"] as const;

function trees(n: number, budget: number): Scenario {
  return {
    name: `middleware, ${n} operations, ${budget} deviations`,
    budget,
    shard: true,
    async run(ctl: Ctl) {
      const root = new Composer<any>();
      const real: Composer<any>[] = [root];
      const model: Model[] = [new Model()];
      let names = 0;
      const spec: string[] = [];
      const mw = (fixed?: B): [any, Item] => {
        const name = String.fromCharCode(97 + names++);
        const b = fixed ?? ctl.pick(behaviours, "behaviour", 1);
        spec.push(`${name} ${b}`);
        return [
          (ctx: any, next: any) => behave(name, b, runs.get(ctx.update.id)!.log, next),
          async (run, next) => void await behave(name, b, run.log, next),
        ];
      };
      for (let s = 0; s < n; s++) {
        const at = ctl.free(real.length, "composer");
        const op = ctl.pick(ops, "operation");
        spec.push(`${at} ${op}`);
        const R = real[at], M = model[at];
        const sub = new Model();
        const made = (c: Composer<any>) => (real.push(c), model.push(sub));
        switch (op) {
          case "use": {
            const [r, m] = mw();
            sub.items.push(m);
            M.items.push((run, next) => sub.handle(run, next));
            made(R.use(r));
            break;
          }
          case "use two": {
            const [r, m] = mw(), [r2, m2] = mw();
            sub.items.push(m, m2);
            M.items.push((run, next) => sub.handle(run, next));
            made(R.use(r, r2));
            break;
          }
          case "use nothing":
            M.items.push((run, next) => sub.handle(run, next));
            made(R.use());
            break;
          case "filter true":
          case "filter false":
          case "filter later true":
          case "filter by update": {
            const [r, m] = mw();
            sub.items.push(m);
            const ok = (id: number) => op === "filter by update" ? id % 2 === 0 : op !== "filter false";
            M.items.push((run, next) => ok(run.id) ? sub.handle(run, next) : next());
            made(R.filter((ctx: any) => op === "filter later true" ? late().then(() => true) : ok(ctx.update.id), r));
            break;
          }
          case "branch true":
          case "branch false": {
            const [r, m] = mw(), [r2, m2] = mw("next");
            sub.items.push((run, next) => op === "branch true" ? m(run, next) : m2(run, next));
            M.items.push((run, next) => sub.handle(run, next));
            made(R.branch(() => op === "branch true", r, r2));
            break;
          }
          case "use a composer": {
            const [r, m] = mw(), [r2, m2] = mw("next");
            const c = new Composer<any>(r);
            const cm = new Model();
            cm.items.push(m);
            M.items.push((run, next) => cm.handle(run, next));
            R.use(c);
            // added to later
            c.use(r2);
            cm.items.push(m2);
            real.push(c), model.push(cm);
            break;
          }
        }
      }
      ctl.step(spec.join("; "));
      runs.clear();
      const updates = [0, 1].map((id) => ({ type: "message", id, message: message("text") }));
      const expected = await Promise.all(updates.map(async (u) => {
        const run = { id: u.id, log: [] as Log };
        let end = "ok";
        try {
          await model[0].handle(run, () => Promise.resolve());
        } catch (err) {
          end = (err as Error).message;
        }
        return `${run.log.join(" ")} / ${end}`;
      }));
      const c = client();
      const got = await Promise.all(updates.map(async (u) => {
        const run = { id: u.id, log: [] as Log };
        runs.set(u.id, run);
        let end = "ok";
        try {
          await root.handleUpdate(c, u as any);
        } catch (err) {
          end = (err as Error).message;
        }
        return `${run.log.join(" ")} / ${end}`;
      }));
      for (const i of [0, 1]) check(got[i] === expected[i], () => `${spec.join("; ")}: update ${i} ran ${got[i]} instead of ${expected[i]}`, "middleware ran in another way");
      ctl.outcome(got.join());
    },
  };
}

// --- filters ----------------------------------------------------------------------------------------------------
/** Whether a filter with just this name matches, by what the documentation and types of filters say. */
function matches(filter: string, u: any): boolean {
  const i = filter.indexOf(":");
  if (i < 0) return updateTypes.includes(filter) ? u.type === filter : u.type === "update" && u.update._ === filter;
  const l1 = filter.slice(0, i), l2 = filter.slice(i + 1);
  const ms = ["message", "editedMessage", "scheduledMessage"];
  if (l1 === "" ? !ms.includes(u.type) : u.type !== l1) return false;
  const v = u[u.type];
  return ms.includes(u.type) || u.type === "secretMessage" ? v.type === l2 : v[l2] !== undefined;
}
const filters = [
  ...updateTypes,
  ...rawNames,
  ...["", "message", "editedMessage", "scheduledMessage"].flatMap((x) => messageTypes.map((t) => `${x}:${t}`)),
  ...secretTypes.map((t) => `secretMessage:${t}`),
  ...["message", "inlineMessageId", "data", "gameShortName"].map((x) => `callbackQuery:${x}`),
  "chosenInlineResult:inlineMessageId",
];

async function ran(build: (c: Composer<any>, mw: any) => void, u: any, m: any = me): Promise<boolean> {
  const c = new Composer<any>();
  let inside = false, after = false;
  build(c, (_: any, next: any) => ((inside = true), next()));
  c.use(() => void (after = true));
  await c.handleUpdate(client(m), u);
  check(after, "a filter kept an update from the rest");
  return inside;
}

function filterScenario(part: number, parts: number): Scenario {
  return {
    name: `filters, part ${part + 1}`,
    async run(ctl: Ctl) {
      for (const [i, filter] of filters.entries()) {
        if (i % parts !== part) continue;
        for (const [name, u] of samples()) {
          const want = matches(filter, u);
          const got = await ran((c, mw) => c.on(filter as any, mw), u);
          check(got === want, () => `on("${filter}") ${got ? "takes" : "does not take"} ${name}`, `on("${filter}") ${got ? "takes" : "does not take"} ${name}`);
          check(new Context(client(), me, u).hasFilterQuery(filter as any) === want, () => `hasFilterQuery("${filter}") is wrong for ${name}`);
          ctl.count("filters and updates");
        }
      }
      ctl.step("all");
      ctl.outcome(`${part}`);
    },
  };
}

// --- commands ---------------------------------------------------------------------------------------------------
const specs: [string, any, (name: string) => boolean][] = [
  ["start", "start", (n) => n === "start"],
  ["Start", "Start", (n) => n === "start"],
  ["[a, start]", ["a", "start"], (n) => n === "a" || n === "start"],
  ["/^st/", /^st/, (n) => n.startsWith("st")],
  ["[/x$/, a]", [/x$/, "a"], (n) => n.endsWith("x") || n === "a"],
];
const prefixSpecs: [string, any, string[] | null][] = [["none", undefined, null], ["!", "!", ["!"]], ["! and .", ["!", "."], ["!", "."]], ["/", "/", ["/"]], ["go-", "go-", ["go-"]], ["none (list)", [], null]];
function commands(): Scenario {
  return {
    name: "commands",
    async run(ctl: Ctl) {
      const [sn, spec, names] = ctl.pick(specs, "commands");
      const [pn, prefixes, list] = ctl.pick(prefixSpecs, "prefixes");
      const how = ctl.pick(["command", "composer", "has"], "how");
      const who: any = ctl.pick([me, user(1, { isBot: true }), user(1, { username: "me_BOT" })], "me");
      ctl.step(`${sn}, ${pn}, ${how}`);
      const use = list ?? [who.isBot ? "/" : "\\"];
      for (const prefix of ["/", "\\", "!", ".", "go-", "GO-", ""]) {
        for (const name of ["start", "START", "a", "st", "x", "box", "startx", ""]) {
          for (const at of ["", "@me_bot", "@ME_BOT", "@other_bot", "@", "@me_bo"]) {
            for (const tail of ["", " a", "\nb", "\t/start", " @other_bot", "\u00a0x"]) {
              const text = prefix + name + at + tail;
              if (!prefix && !name) continue;
              const p = use.find((x) => text.startsWith(x));
              const rest = p === undefined ? "" : (prefix + name).slice(p.length);
              if (p !== undefined && rest.includes(p)) continue; // not specified
              const want = p !== undefined && names(rest.toLowerCase()) && (!at || at.slice(1).toLowerCase() === who.username?.toLowerCase());
              for (const type of ["message", "editedMessage", "scheduledMessage"]) {
                if (type !== "message" && tail) continue;
                const u: any = { type, [type]: message("text", { text }) };
                const wanted = want && type === "message";
                let got;
                if (how === "has") got = new Context(client(who), who, u).hasCommand(prefixes === undefined ? spec : { names: spec, prefixes }, undefined);
                else {
                  got = await ran((c, mw) => {
                    if (how === "composer" && prefixes !== undefined) c.prefixes = prefixes;
                    c.command(how === "composer" || prefixes === undefined ? spec : { names: spec, prefixes }, mw);
                  }, u, who);
                }
                check(got === wanted, () => `${JSON.stringify(text)} (${type}) is ${got ? "" : "not "}the command ${sn} with prefixes ${pn} for ${JSON.stringify(who)}`, `command ${sn}, prefixes ${pn}: ${got}`);
                ctl.count("texts");
              }
            }
          }
        }
      }
      // captions and other messages are not commands
      for (const t of messageTypes.filter((t) => t !== "text")) check(!await ran((c, mw) => c.command(/./, mw), { type: "message", message: message(t, { caption: "/start" }) }, who), () => `a ${t} is a command`);
      // prefixes that cannot be told apart
      for (const [bad, wrong] of [[["!", "!!"], true], [["!!", "!"], true], [["a", "b", "bc"], true], [["ab", "b"], false], [["a", "b"], false]] as [string[], boolean][]) {
        let threw = false;
        try {
          new Composer<any>().command({ names: "x", prefixes: bad });
        } catch {
          threw = true;
        }
        check(threw === wrong, () => `prefixes ${bad}: ${threw}`);
      }
      const c = new Composer<any>();
      c.prefixes = "!";
      let threw = false;
      try {
        c.prefixes = "?";
      } catch {
        threw = true;
      }
      check(threw, "prefixes can be set twice");
      ctl.outcome(`${sn}, ${pn}, ${how}`);
    },
  };
}

// --- matching of data -------------------------------------------------------------------------------------------
function data(): Scenario {
  return {
    name: "data and queries",
    async run(ctl: Ctl) {
      const want: [string, any, (d: string) => boolean][] = [
        ["abc", "abc", (d) => d === "abc"],
        ["empty", "", (d) => d === ""],
        ["list", ["x", "abc"], (d) => d === "x" || d === "abc"],
        ["regex", /b/, (d) => d.includes("b")],
        ["regex, i", /^AB/i, (d) => d.toLowerCase().startsWith("ab")],
        ["mixed", [/^x/, "abc"], (d) => d.startsWith("x") || d === "abc"],
        ["no", [], () => false],
      ];
      for (const [n, q, ok] of want) {
        for (const d of ["abc", "ABC", "", "x", "xabc", "abc ", "b"]) {
          const us: [string, any][] = [
            ["callbackQuery", { type: "callbackQuery", callbackQuery: { id: "q", from: user(3), inlineMessageId: "i", data: d } }],
            ["callbackQuery", { type: "callbackQuery", callbackQuery: { id: "q", from: user(3), message: message("text", { text: d }), gameShortName: d } }],
            ["inlineQuery", { type: "inlineQuery", inlineQuery: { id: "q", from: user(3), query: d, offset: "" } }],
            ["chosenInlineResult", { type: "chosenInlineResult", chosenInlineResult: { resultId: d, from: user(3), query: d } }],
            ["message", { type: "message", message: message("text", { text: d }) }],
          ];
          for (const [i, [type, u]] of us.entries()) {
            for (const m of ["callbackQuery", "inlineQuery", "chosenInlineResult"] as const) {
              const wanted = m === type && i !== 1 && ok(d);
              const got = await ran((c, mw) => (c as any)[m](q, mw), u);
              check(got === wanted, () => `${m}(${n}) ${got ? "takes" : "does not take"} ${JSON.stringify(u)}`, `${m}(${n})`);
              const has = `has${m[0].toUpperCase()}${m.slice(1)}`;
              check((new Context(client(), me, u) as any)[has](q) === wanted, () => `${has}(${n}) is wrong for ${JSON.stringify(u)}`);
              ctl.count("queries");
            }
          }
        }
      }
      ctl.step("all");
      ctl.outcome("all");
    },
  };
}

// --- what a context says about its update -----------------------------------------------------------------------
function shortcuts(u: any) {
  const v = u[u.type];
  const msg = ["message", "editedMessage", "scheduledMessage"].includes(u.type) ? v : ["callbackQuery", "guestQuery"].includes(u.type) ? v.message : undefined;
  const chat = msg ? msg.chat : ["messageReactions", "messageReactionCount", "chatMember", "myChatMember", "joinRequest", "story", "newChat", "editedChat"].includes(u.type) ? v.chat : undefined;
  const chatId = chat ? chat.id : ["deletedStory", "messageInteractions", "deletedChat", "botCommands", "chatAction"].includes(u.type) ? v.chatId : undefined;
  const from = ["callbackQuery", "inlineQuery", "chosenInlineResult", "chatMember", "myChatMember", "preCheckoutQuery", "joinRequest", "pollAnswer"].includes(u.type) ? v.from : ["messageReactions", "businessConnection"].includes(u.type) ? v.user : msg?.from;
  const out: any = { msg, chat, chatId, from, update: u };
  for (const k of ["message", "editedMessage", "scheduledMessage", "secretMessage", "guestQuery", "callbackQuery", "inlineQuery", "chosenInlineResult", "secretChat"]) out[k] = u.type === k ? v : undefined;
  return out;
}
function getters(): Scenario {
  return {
    name: "contexts",
    async run(ctl: Ctl) {
      for (const [name, u] of samples()) {
        const c = new Composer<any>();
        let asked = 0, ctx: any;
        c.use((x) => void (ctx = x));
        const cl: any = { getMe: () => (asked++, Promise.resolve(me)) };
        await c.handleUpdate(cl, u);
        const known = !(u.type === "connectionState" || u.type === "authorizationState" && !u.authorizationState.isAuthorized);
        check(known ? ctx.me === me : asked === 0, () => `${name}: me`);
        check(ctx.client === cl, "the client");
        for (const [k, v] of Object.entries(shortcuts(u))) check(ctx[k] === v, () => `ctx.${k} of ${name} is ${JSON.stringify(ctx[k])}`, `ctx.${k} of ${name}`);
        const chat = shortcuts(u).chat;
        for (const t of [...Object.keys(chats), ["private", "channel"], ["group", "supergroup"], []] as any[]) {
          const want = chat !== undefined && (Array.isArray(t) ? t : [t]).includes(chat.type);
          check(await ran((c, mw) => c.chatType(t, mw), u) === want, () => `chatType(${t}) of ${name}`);
          check(ctx.hasChatType(t) === want, () => `hasChatType(${t}) of ${name}`);
        }
        JSON.stringify(ctx);
        ctl.count("updates");
      }
      ctl.step("all");
      ctl.outcome("all");
    },
  };
}

const def: CheckDef = {
  id: "C01",
  level: "model_checking",
  rule: "every way to add middleware in the stated number of operations to the root or to any composer returned before, with every behaviour of the functions within the deviation budget, compared with an interpreter; every filter with every kind of update; every text of the listed pieces with every command and prefix specification",
  assumptions: [
    "Not specified: a prefix repeated within a command's name, empty prefixes, prefixes with an @, regular expressions with state, adding middleware while an update is handled.",
  ],
  exhaustive: true,
  scenarios(tier) {
    const t = tier === "thorough";
    const out = [trees(2, t ? 4 : 2), trees(3, t ? 3 : 1), trees(4, t ? 1 : 0)];
    const parts = 4;
    for (let i = 0; i < parts; i++) out.push(filterScenario(i, parts));
    out.push(commands(), data(), getters());
    return out;
  },
};
export default def;
