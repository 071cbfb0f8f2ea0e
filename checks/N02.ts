// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, fireTimer, settle, timers, W } from "../lib/world.ts";
import { Cloud, Disk, ModelStorage } from "../lib/cloud.ts";
import { type Account, AuthServer } from "../lib/auth_server.ts";

interface Cfg {
  name: string;
  account: Partial<Account>;
  /** what the user answers, in turn; the last answer is given again */
  answers?: { phone?: string[]; code?: string[]; password?: string[] };
  acts: string[];
  budget: number;
  /** what happens after signing in */
  after?: string[];
  memory?: boolean;
}

function scenario(cfg: Cfg): Scenario {
  return { name: cfg.name, budget: cfg.budget, shard: true, run: (ctl) => run(ctl, cfg) };
}

async function run(ctl: Ctl, cfg: Cfg) {
  const acts = new Set(cfg.acts);
  const c = new Cloud(ctl);
  const account: Account = { id: 7707077n, dc: "2", code: "12345", registered: true, phone: "+1", ...cfg.account };
  const second: Account = { id: 8808088n, dc: "4", code: "22222", registered: true, phone: "+2" };
  const auth = new AuthServer(c, [account, second]);
  c.onRequest = (r) => auth.handle(r) ?? (r.q._ === "help.getDeepLinkInfo" ? { result: { _: "help.deepLinkInfo", message: "", entities: [] } } : undefined);
  const disk = new Disk();
  let storage!: ModelStorage, client: any;
  let events: boolean[] = [];
  let disturbed = 0, crashes = 0, exploring = true, dead = false;
  const gate = (op: string) => {
    if (op === "get" || op === "getMany" || !exploring || !acts.has("crash") || dead) return;
    const o = ctl.choose(2, "write");
    if (o) {
      ctl.step("the client is killed before a write");
      crashes++;
      dead = true;
      storage.dead = true;
    }
  };
  const boot = () => {
    dead = false;
    storage = new ModelStorage(disk, gate);
    events = [];
    const ev = events;
    client = c.create(storage);
    client.use(async (ctx: any, next: any) => {
      if (ctx.update.type === "authorizationState") {
        ev.push(ctx.update.authorizationState.isAuthorized);
        if (ev.at(-1)) check2(ctx.me?.id === Number(who.id), `updates tell the account is ${ctx.me?.id} instead of ${who.id}`);
      }
      await next();
    });
  };
  boot();
  interface Job {
    what: string;
    status: "running" | "ok" | "err";
    error?: any;
    value?: any;
  }
  let job: Job | null = null;
  let prompts: string[] = [];
  let who = account;
  let mayPrompt = true;
  const answer = (kind: "phone" | "code" | "password") => (hint?: any) => {
    check2(mayPrompt, `the user is asked for a ${kind} although signed in`);
    if (kind === "password") check2((hint ?? null) === (account.hint ?? null), `the hint is ${hint}`);
    prompts.push(kind);
    if (who === second) return kind === "phone" ? second.phone : second.code;
    const list = cfg.answers?.[kind] ?? { phone: ["+1"], code: ["12345"], password: ["secret"] }[kind];
    const n = prompts.filter((p) => p === kind).length - 1;
    return list[Math.min(n, list.length - 1)];
  };
  let problem: string | null = null;
  const check2 = (b: boolean, s: string) => {
    if (!b) problem ??= s;
  };
  const params = () => who.token ? { botToken: who.token } : { phone: answer("phone"), code: answer("code"), password: answer("password"), firstName: () => " Ada ", lastName: () => "" };
  const begin = (what: string, p: Promise<any>) => {
    const j: Job = job = { what, status: "running" };
    ctl.step(what);
    p.then((v) => (j.status = "ok", j.value = v), (e) => (j.status = "err", j.error = e));
    return j;
  };
  const killed = () => {
    // the process has ended: its connections are closed, and nothing of it runs any more
    W.timers.clear();
    for (const l of c.net.links) l.open = false;
    c.waiting = [];
    c.net.pendingOpens = [];
    job = null;
  };
  /** One step: a packet, time, or a deviation. Returns false when nothing can happen. */
  const step = async (): Promise<boolean> => {
    await settle();
    if (dead) return false;
    c.ok();
    check(!problem, problem ?? "", problem ?? "");
    const opts: [string, () => void][] = [];
    if (c.waiting.length) {
      opts.push(["go", () => {
        const w = c.waiting[0];
        ctl.step(w.label);
        w.go();
      }]);
    } else if (job?.status === "running") {
      const t = timers()[0];
      if (!t) return false;
      opts.push(["time", () => (ctl.step("time passes"), fireTimer(t))]);
    } else return false;
    if (exploring && acts.has("drop") && c.waiting.length) {
      for (const after of [false, true]) {
        opts.push([after ? "drop after" : "drop", () => {
          const w = c.waiting[0];
          ctl.step(`${w.label}: the connection is lost ${after ? "after" : "before"} it`);
          disturbed++;
          if (after) w.go();
          c.waiting = c.waiting.filter((x) => x.link !== w.link);
          w.link.conn.drop(w.link);
        }]);
      }
    }
    if (exploring && acts.has("flood") && c.waiting[0]?.request) {
      opts.push(["flood", () => {
        const w = c.waiting[0];
        ctl.step(`${w.label}: FLOOD_WAIT_5`);
        c.done(w);
        c.answer(w.request!, { error: [420, "FLOOD_WAIT_5"] });
      }]);
    }
    opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())][1]();
    return true;
  };
  const finish = async () => {
    for (let i = 0; await step(); i++) check(i < 150, () => `${job?.what} does not end: ${c.waiting[0]?.label}`, `${job?.what.replace(/ again.*/, "")} does not end`);
  };
  const tries = async (what: string, f: () => Promise<any>) => {
    // the application tries again when a connection is lost, and is started again when killed
    for (let n = 0;; n++) {
      check(n < 6, () => `${what} fails again and again: ${job?.error}`, `${what} fails again and again`);
      const j = begin(n ? `${what} again` : what, f());
      const before = disturbed;
      await finish();
      if (dead) {
        killed();
        boot();
        continue;
      }
      if (j.status === "ok") return j.value;
      check(j.status === "err", () => `${what} does not end`, `${what} does not end`);
      check(disturbed > before || (n > 0 && disturbed > 0), () => `${what} fails: ${j.error?.stack ?? j.error}`, `${what} fails: ${j.error?.message ?? j.error}`);
      ctl.note(`failed: ${j.error}`);
    }
  };
  const signedIn = async (a: Account) => {
    exploring = false;
    await finish();
    const me = await tries("getMe", () => client.getMe());
    check(me.id === Number(a.id), () => `signed in as ${me.id} instead of ${a.id}`, "signed in as someone else");
    check(c.keys.some((k) => k.user === a.id && k.dc === a.dc), "not signed in");
    const s: string = await tries("exportAuthString", () => client.exportAuthString());
    check(s.length > 100, "the authorization string is too short");
    check(events.length > 0 && events.at(-1) === true, () => `the last authorization state is ${events}`, "signed in, and the application is told otherwise");
    check(events.every((e, i) => !i || e !== events[i - 1]), () => `authorization states ${events}`, "an authorization state is repeated");
    return s;
  };
  // sign in
  await tries("start", () => client.start(params()));
  const counts = (k: string) => prompts.filter((p) => p === k).length;
  if (!disturbed && !crashes) {
    const wrong = (k: "phone" | "code" | "password") => (cfg.answers?.[k]?.length ?? 1);
    const want = account.token ? [0, 0, 0] : [wrong("phone"), wrong("code"), account.password === undefined ? 0 : wrong("password")];
    check([counts("phone"), counts("code"), counts("password")].join() === want.join(), () => `the user was asked for ${prompts}`, "the user was asked too little or too much");
    check(auth.signIns === 1, "signed in more than once");
  }
  ctl.outcome(`${prompts}/${auth.signIns}/${crashes}/${disturbed}/${c.keys.map((k) => k.dc)}/${events}`);
  let s = await signedIn(account);
  if (cfg.account.registered === false) check(account.firstName === "Ada" && !account.lastName, "signed up with another name");
  // a restart, by a crash or orderly, needs no signing in
  const keys = c.handshakes.length;
  if (ctl.free(2, "restart")) {
    ctl.step("the client is killed");
  } else {
    ctl.step("the client is stopped");
    const j = begin("disconnect", client.disconnect());
    exploring = false;
    await finish();
    check(j.status === "ok", "disconnect does not end");
    check(!c.live.length, "a connection is left open");
  }
  killed();
  boot();
  mayPrompt = false;
  exploring = false;
  await tries("start after a restart", () => client.start(params()));
  check(c.handshakes.length === keys, "a new key is made after a restart");
  s = await signedIn(account);
  const signIns = auth.signIns;
  // the authorization string is worth an authorization elsewhere
  {
    const other = new Disk();
    const old = { storage, client, events };
    storage = new ModelStorage(other);
    events = [];
    const ev = events;
    client = c.create(storage, { authString: s });
    client.use(async (ctx: any, next: any) => {
      if (ctx.update.type === "authorizationState") {
        ev.push(ctx.update.authorizationState.isAuthorized);
        if (ev.at(-1)) check2(ctx.me?.id === Number(who.id), `updates tell the account is ${ctx.me?.id} instead of ${who.id}`);
      }
      await next();
    });
    await tries("start with the authorization string", () => client.start(params()));
    check(await signedIn(account) === s, "another authorization string");
    await tries("disconnect", () => client.disconnect());
    ({ storage, client, events } = old);
  }
  check(auth.signIns === signIns, "signed in again");
  if (!cfg.after) return;
  // sign out, and in again as someone else
  const more = ctl.free(3, "other data centers");
  const other = account.dc === "4" ? "1" : "4";
  const ask = (o: any) => client.invoke({ _: "help.getDeepLinkInfo", path: "" }, o);
  if (more === 1) {
    await tries("a request elsewhere", () => ask({ dc: other }));
    await tries("a download elsewhere", () => ask({ dc: other, type: "download" }));
    check(disk.entries.some((e) => String(e[0][0]).startsWith("branch")), "the key of another data center is not stored");
  } else if (more === 2) {
    // being set up when signing out
    for (const o of [{ dc: other }, { dc: other, type: "download" }]) ask(o).then(() => {}, () => {});
  }
  exploring = true;
  mayPrompt = true;
  prompts = [];
  const old = c.keys.slice();
  const before = disturbed, crashesBefore = crashes;
  const j = begin("signOut", client.signOut());
  await finish();
  if (dead) {
    killed();
    boot();
    exploring = false;
    mayPrompt = auth.signOuts > 0;
    await tries("start after a crash", () => client.start(params()));
    return;
  }
  exploring = false;
  const undisturbed = disturbed === before && crashes === crashesBefore;
  check(j.status === "ok" || !undisturbed, () => `signOut fails: ${j.error?.stack}`, "signOut fails");
  check(j.status !== "running", "signOut does not end");
  const text = (v: unknown): string => JSON.stringify(v, (_k, x) => x instanceof Uint8Array ? `<${x.join()}>` : typeof x === "bigint" ? `${x}n` : x) ?? "";
  const secrets = c.keys.filter((k) => old.includes(k) || k.user !== null).map((k) => k.key);
  const kept = secrets.find((k) => text(disk.entries).includes(`<${k.join()}>`));
  check(!kept, () => `a key is left in the storage after signing out: ${disk.entries.map((e) => e[0])}`, "a key is left in the storage after signing out");
  check(!text(disk.entries).includes(String(account.id)), () => "left: " + text(disk.entries).slice(0, 900), "the account is left in the storage after signing out");
  if (j.status === "ok") check(events.at(-1) === false, () => `authorization states ${events} after signing out`, "the application is not told it is signed out");
  who = second;
  const n = events.length;
  await tries("signIn as someone else", () => client.signIn(params()));
  void n;
  check(prompts.length > 0, "not asked for anything when signing in as someone else");
  await signedIn(second);
  check((await client.getInputPeer(Number(second.id)))._ === "inputPeerSelf", "the client takes itself for someone else");
  const k = c.keys.find((k) => k.user === second.id)!;
  check(!secrets.includes(k.key), "the old key is used after signing out", "the old key is used after signing out");
  await tries("disconnect", () => client.disconnect());
  await advance(60_000);
  check(!c.live.length, "a connection is left open");
}

export default {
  id: "N02",
  level: "fault_enumeration",
  rule: "every packet at which a connection is lost (before or after the server acts on it), every request answered with a short flood wait, and every storage write before which the process is killed, within the deviation budget, over listed kinds of accounts and answers, each followed by an orderly or abrupt restart, an import of the authorization string elsewhere, and signing out and in as someone else with or without other data centers in use; non-trivial when the prompts, sign-ins, keys and authorization states are new",
  assumptions: ["the application calls start again when it failed because of a lost connection or a crash", "the user answers prompts at once", "single storage writes are atomic", "the data centers keep the keys agreed on"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const list: Scenario[] = [];
    const accounts: [string, Partial<Account>, Cfg["answers"]?][] = [
      ["a code", {}],
      ["a code elsewhere", { dc: "4" }],
      ["a code and a password", { password: "secret", hint: "the usual" }],
      ["signing up elsewhere", { dc: "4", registered: false }],
      ["a bot token", { token: "1:a" }],
      ["a bot token elsewhere", { token: "1:a", dc: "4" }],
      ["wrong answers", { password: "secret", dc: "4" }, { phone: ["+9", "+1"], code: ["1", "2", "12345"], password: ["x", "secret"] }],
    ];
    for (const [name, account, answers] of accounts) {
      for (const a of ["drop", "crash", "flood"]) list.push(scenario({ name: `${name}, ${a}`, account, answers, acts: [a], budget: 1 + d, after: ["out"] }));
    }
    return list;
  },
} satisfies CheckDef;
