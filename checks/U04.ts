// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { Account, CH, type Kind } from "../lib/account.ts";
import { channel, user } from "../lib/client.ts";
import { advance, settle, W } from "../lib/world.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";

interface Cfg {
  name: string;
  script: (Kind | Kind[])[];
  acts: string[];
  budget: number;
  isBot?: boolean;
}

function guaranteed(cfg: Cfg): Scenario {
  const acts = new Set(cfg.acts);
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl: Ctl) => {
      const disk = new Disk();
      let crashes = 0, failures = 0;
      let crashed = false;
      let exploring = false;
      let storage!: ModelStorage;
      let slow: (() => void)[] = [];
      const a = new Account(ctl, { isBot: cfg.isBot, params: { guaranteeUpdateDelivery: true, dropPendingUpdates: false } });
      const completed: string[] = [];
      a.handling = (key) => {
        if (exploring && acts.has("broken")) {
          failures++;
          throw new Error("handler");
        }
        if (exploring && acts.has("throw") && ctl.choose(2, `handler of ${key} fails`)) {
          failures++;
          ctl.step(`the handler of ${key} fails`);
          throw new Error("handler");
        }
        completed.push(key);
      };
      const boot = async (restarted: boolean) => {
        const mine = storage = new ModelStorage(disk, (op, key) => {
          if (mine !== storage) return void (mine.dead = true);
          if (!exploring) return;
          if (op === "set" && acts.has("crash") && crashes < 2 && ctl.choose(2, `crash before write #${disk.writes}`)) {
            ctl.step(`crash before writing ${key.map(String).join("/")}`);
            crashed = true;
            mine.dead = true;
            return;
          }
          if (acts.has("slow") && String(key[0]).startsWith("updates.") && ctl.choose(2, `slow ${op}`)) {
            ctl.step(`${op} ${key.map(String).join("/")} takes long`);
            return new Promise<void>((r) => slow.push(r));
          }
        });
        a.app.create({ storage });
        a.use();
        try {
          const p = a.app.start(restarted);
          if (!restarted) return await p;
          p.catch(() => {});
          await settle();
        } catch (e) {
          if (!crashed) throw e;
        }
      };
      const restart = async () => {
        for (let i = 0; i < 4; i++) {
          crashed = false;
          crashes++;
          slow = [];
          a.kill();
          a.auto = true;
          a.app.onRequest = ((f) => (r: any) => (r.q._ === "updates.getDifference" && (a.auto = false), f!(r)))(a.app.onRequest);
          if (acts.has("clock") && ctl.choose(2, "clock set back")) {
            ctl.step("the clock is set back");
            W.now -= 3_600_000;
          }
          W.now += 1000;
          ctl.step("the client is started again");
          await boot(true);
          if (!crashed) return;
        }
        fail("harness: too many crashes");
      };
      await boot(false);
      // the client knows the channel
      a.app.push({ _: "updates", updates: [{ _: "updateChannel", channel_id: CH }], users: [user(9n)], chats: [channel(CH)], date: 5, seq: 0 });
      await settle();
      a.announce("chmsg", [a.event("chmsg")]);
      a.deliver(0);
      await settle();
      await advance(6_000);
      a.auto = false;
      a.slices = acts.has("slice");
      exploring = true;
      let at = 0;
      const create = () => {
        const step = cfg.script[at++];
        const kinds = Array.isArray(step) ? step : [step];
        ctl.step(`happens: ${kinds.join("+")}`);
        a.announce(kinds[0], kinds.map((k) => a.event(k)), true);
      };
      for (let i = 0; i < 60; i++) {
        if (crashed) {
          await restart();
          continue;
        }
        const opts: [string, () => void | Promise<void>][] = [];
        const more = at < cfg.script.length;
        if (a.queue.length) opts.push(["deliver", () => a.deliver(0)]);
        else if (slow.length) {
          opts.push(["storage", () => {
            for (const f of slow.splice(0)) f();
          }]);
        } else if (more) opts.push(["create", create]);
        else break;
        if (a.queue.length && more) opts.push(["create early", create]);
        if (a.queue.length > 1) opts.push(["deliver #1", () => a.deliver(1)]);
        if (a.queue[0]?.kind === "push" && acts.has("lose")) opts.push(["lose", () => a.lose(0)]);
        if (a.queue.length && slow.length) {
          opts.push(["storage", () => {
            for (const f of slow.splice(0)) f();
          }]);
        }
        if (acts.has("drop")) opts.push(["drop", () => a.drop()]);
        if (acts.has("commit")) opts.push(["5 minutes", async () => (ctl.step("5 minutes pass"), await advance(301_000))]);
        if (acts.has("restart")) {
          opts.push(["restart", async () => {
            ctl.step("the client is stopped");
            const p = a.app.client.disconnect();
            p.catch(() => {});
            await settle();
            await restart();
          }]);
        }
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join(","))];
        await run();
        await settle();
        if (!crashed) a.app.checkUnhandled();
      }
      exploring = false;
      // undisturbed from here: everything that has happened is delivered
      const finish = async () => {
        for (let i = 0; i < 80 && (a.queue.length || slow.length || crashed); i++) {
          if (crashed) await restart();
          else if (slow.length) for (const f of slow.splice(0)) f();
          else a.deliver(0);
          await settle();
        }
      };
      await finish();
      for (const k of ["msg", "chmsg", ...(cfg.isBot ? ["qbot" as const] : [])] as Kind[]) {
        a.announce(k, [a.event(k)]);
        await finish();
      }
      a.app.checkUnhandled();
      const first = new Map<string, number>(), counts = new Map<string, number>();
      completed.forEach((k, i) => (first.has(k) || first.set(k, i), counts.set(k, (counts.get(k) ?? 0) + 1)));
      const last = new Map<string, number>();
      for (const e of a.events) {
        check(!e.message || first.has(`shown ${e.key}`) || e.lost, () => `${e.key} (pts ${e.pts}) was never shown as a message`, "a guaranteed message was never shown");
        check(first.has(e.key) || e.lost, () => `${e.key} (pts ${e.pts}) never reached a handler that succeeded`, "a guaranteed update was never delivered");
        if (!crashes && !failures && !e.repeat) check(counts.get(e.key)! <= 1, () => `${e.key} (pts ${e.pts}) was delivered ${counts.get(e.key)} times`, "an update was delivered more than once");
        if (e.repeat || e.lost) continue;
        const k = `${e.box} ${e.message || e.encrypted ? "message" : "other"}`;
        check(first.get(e.key)! > (last.get(k) ?? -1), () => `${e.key} (pts ${e.pts}) was delivered too early`, "updates were delivered out of order");
        last.set(k, first.get(e.key)!);
      }
      ctl.outcome(completed.join());
    },
  };
}

export default {
  id: "U04",
  level: "fault_enumeration",
  rule: "every crash point (before each write to the storage), failing handler, slow storage operation and order of what the server sends within the deviation budget; an execution is non-trivial when its sequence of handled updates is new",
  assumptions: ["a single write to the storage is atomic", "the server numbers updates and computes differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: (Kind | Kind[])[], acts: string, budget: number, extra: Partial<Cfg> = {}): Scenario => guaranteed({ name, script, acts: acts.split(" "), budget: budget + d, ...extra });
    return [
      c("crashes", ["msg", "del", "msg"], "crash lose", 2),
      c("crashes while catching up", [["msg", "del"], "msg"], "crash lose slice drop", 2),
      c("crashes in channels", ["chmsg", "chdel", "chmsg"], "crash lose", 2),
      c("crashes after commits", ["chmsg", "chdel", "chmsg"], "crash commit lose", 2),
      c("crashes in the secondary box", ["qbot", "msg", "qbot"], "crash lose", 2, { isBot: true }),
      c("failing handlers", ["msg", "del", "msg"], "throw", 4),
      c("failing handlers and crashes", ["msg", "chmsg", "msg"], "throw crash", 3),
      c("clock set back", ["msg", "chmsg", "msg"], "crash throw clock", 3),
      c("handlers fail for long", ["msg", "chmsg", "msg", "del"], "crash broken clock lose", 2),
      c("slow storage", ["msg", "del", "msg"], "slow", 3),
      c("slow storage and restarts", ["msg", "del", "msg"], "slow restart throw", 3),
      c("slow storage and crashes", ["msg", "del", "msg"], "slow crash", 2),
    ];
  },
} satisfies CheckDef;
