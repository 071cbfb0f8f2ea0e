// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, fireTimer, settle, timers, W } from "../lib/world.ts";
import { App, type Request } from "../lib/client.ts";

interface Cfg {
  handlers: number;
  calls: number;
  defaults: boolean;
  errors: [number, string][];
  drop?: boolean;
  budget: number;
}
const ANSWER = (n: number) => ({ _: "help.deepLinkInfo", message: `answer ${n}`, entities: [] });
const waits = (m: string) => m.startsWith("FLOOD_WAIT_") && Number(m.slice(11)) <= 10;

/** Calls that fail, and handlers of errors that decide what happens then. */
function errors(name: string, cfg: Cfg): Scenario {
  return {
    name,
    budget: cfg.budget,
    shard: true,
    async run(ctl: Ctl) {
      const app = new App(ctl, { params: { defaultHandlers: cfg.defaults } });
      app.create();
      app.onRequest = (r) => r.q._ === "help.getDeepLinkInfo" ? null : undefined;
      interface Call {
        n: number;
        function: any;
        attempts: number;
        /** the error of the last attempt, while it is being handled */
        error: string | null;
        chain: number;
        status: string;
        value?: any;
        retry: boolean;
        sent: boolean;
        end: unknown;
        decided: "" | "retry" | "fail" | "throw";
        wait: number;
      }
      const calls: Call[] = [];
      const paused: [string, () => void][] = [];
      const queue: Request[] = [];
      let drops = 0;
      for (let i = 0; i < cfg.handlers; i++) {
        app.client.invoke.use(async (c: any, next: any) => {
          const call = calls.find((x) => x.function === c.function);
          check(call, "a handler is given another function");
          check(c.client === app.client, "a handler is given another client");
          if (drops && c.error?.name === "ConnectionError" && (call.error === null || call.decided === "retry")) {
            // a request that was lost, or could not be sent
            if (!call.sent) call.attempts++;
            call.sent = false;
            call.error = "ConnectionError";
            call.decided = "";
            call.chain = 0;
            const at = queue.findIndex((r) => r.q.path === String(call.n));
            if (at >= 0) queue.splice(at, 1);
          }
          check(call.error !== null && call.decided === "", "a handler is called without an error");
          check((c.error?.errorMessage ?? c.error?.name) === call.error, () => `a handler is given ${c.error} instead of ${call.error}`, "a handler is given another error");
          check(c.n === call.attempts, () => `a handler is told of attempt ${c.n} instead of ${call.attempts}`, "a handler is told another number of attempts");
          check(call.chain === i, () => `handler ${i} is called instead of ${call.chain}`, "handlers are called in another order");
          call.chain++;
          const last = i === cfg.handlers - 1;
          const what = ctl.pick(["next", "retry", "fail", "throw", "later", "twice"], `handler ${i}`, 1);
          ctl.note(`handler ${i} for call ${call.n}: ${what}`);
          if (what === "retry") call.decided = "retry";
          if (what === "fail") call.decided = "fail";
          if (what === "throw") {
            call.decided = "throw";
            call.end = new Error("thrown");
            throw call.end;
          }
          if (what === "later") {
            await new Promise<void>((r) => paused.push([`handler ${i} of call ${call.n} goes on`, r]));
            check(call.chain === i + 1, "a handler is called before the one before it called next");
            call.decided = "retry";
          }
          if (what === "next" || what === "twice") {
            if (last) call.decided = "fail";
            let r: any, thrown = false;
            try {
              r = await next();
            } catch (err) {
              thrown = true;
              r = err;
            }
            const chain = call.chain;
            check(chain > i + 1 || last, "the next handler is not called");
            check(call.decided, "the next handler has not decided");
            check(thrown === (call.decided === "throw"), "the result of the next handler is lost");
            if (!thrown) check(r === (call.decided === "retry"), "the result of the next handler is lost");
            if (what === "twice" && !thrown) {
              const again = await next();
              check(again === r && call.chain === chain, "the next handler is called again");
            }
            if (thrown) throw r;
            return r;
          }
          return call.decided === "retry";
        });
      }
      await app.start();
      const take = () => {
        for (const r of app.held.splice(0)) {
          const call = calls[Number(r.q.path)];
          check(call.status === "running", "a request is sent after the call has ended", "a request is sent after the call has ended");
          if (call.attempts > 0 && call.error !== null) check(call.retry || call.decided === "retry", "a request is repeated without anyone asking for it");
          check(!queue.some((x) => x.q.path === r.q.path && x.link.open), "a request is sent twice");
          if (call.error !== null || call.attempts === 0) call.attempts++;
          call.error = null;
          call.chain = 0;
          call.decided = "";
          call.retry = false;
          call.sent = true;
          queue.push(r);
        }
      };
      for (let i = 0; i < 60; i++) {
        await settle();
        take();
        app.checkUnhandled();
        for (const c of calls) {
          const ended = c.decided === "fail" || c.decided === "throw" || (c.error !== null && cfg.handlers === 0 && !(cfg.defaults && waits(c.error)));
          if (c.status === "running") check(!ended || paused.length, () => `call ${c.n} does not end`, "a call that is not to be repeated does not end");
          if (c.status === "err") {
            check(ended, () => `call ${c.n} fails: ${c.value?.stack}`, "a call fails that was to be repeated");
            if (c.decided === "throw") check(c.value === c.end, "the error a handler throws does not reach the caller");
            else check((c.value?.errorMessage ?? c.value?.name) === c.error, "the caller gets another error");
          }
          // a call waiting for a flood wait to end
          if (c.status === "running" && c.wait > 0 && c.error !== null) {
            const wait = c.wait;
            ctl.step(`call ${c.n} waits ${wait} s`);
            c.wait = 0;
            await advance(wait * 1000 - 1);
            check(!app.held.some((r) => r.q.path === String(c.n)), "a request is repeated before the wait is over");
            await advance(1);
            await settle();
            check(app.held.some((r) => r.q.path === String(c.n)), "a request is not repeated after the wait");
            take();
          } else if (c.status === "running" && c.decided === "retry" && c.error !== null && !drops) {
            check(paused.length, () => `call ${c.n} is not repeated`, "a call is not repeated");
          }
        }
        const opts: [string, () => void][] = [];
        if (calls.length < cfg.calls) {
          opts.push(["call", () => {
            const n = calls.length;
            ctl.step(`call ${n}`);
            const c: Call = { n, function: { _: "help.getDeepLinkInfo", path: String(n) }, attempts: 0, error: null, chain: 0, status: "running", retry: false, sent: false, end: null, decided: "", wait: 0 };
            calls.push(c);
            app.client.invoke(c.function).then((v: any) => (c.status = "ok", c.value = v), (e: any) => (c.status = "err", c.value = e));
          }]);
        }
        const alive = queue.filter((r) => r.link.open);
        for (const r of alive) {
          const c = calls[Number(r.q.path)];
          const end = () => queue.splice(queue.indexOf(r), 1);
          for (const e of cfg.errors) {
            opts.push([`fail ${c.n}`, () => {
              ctl.step(`call ${c.n} is answered ${e[1]}`);
              end();
              c.error = e[1];
              c.sent = false;
              if (cfg.defaults && waits(e[1])) c.retry = true, c.wait = Number(e[1].slice(11));
              app.answer(r, { error: e });
            }]);
          }
          opts.push([`answer ${c.n}`, () => {
            ctl.step(`call ${c.n} is answered`);
            end();
            app.answer(r, { result: ANSWER(c.n) });
          }]);
        }
        for (const p of paused) opts.push([p[0], () => (paused.splice(paused.indexOf(p), 1), ctl.step(p[0]), p[1]())]);
        if (cfg.drop && drops < 2 && alive.length) {
          opts.push(["drop", () => {
            ctl.step("the connection is lost");
            drops++;
            for (const l of app.net.links) if (l.open && !l.conn.isMedia) l.conn.drop(l);
          }]);
        }
        if (!opts.length) {
          if (calls.every((c) => c.status !== "running")) break;
          const t = timers()[0];
          check(t, "calls do not end");
          ctl.step("time passes");
          fireTimer(t);
          continue;
        }
        if (calls.length === cfg.calls && !paused.length) opts.reverse();
        opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())][1]();
      }
      for (const c of calls) {
        check(c.status !== "running", () => `call ${c.n} does not end`, "a call does not end");
        if (c.status === "ok") check(c.value.message === `answer ${c.n}` && c.error === null, "a call gets another answer");
      }
      ctl.outcome(calls.map((c) => `${c.status}${c.attempts}${c.value?.errorMessage ?? c.value?.message}`).join());
    },
  };
}

/** What the application is told of the connection. */
function states(name: string, acts: string[], budget: number, opt: any = {}): Scenario {
  return {
    name,
    budget,
    shard: true,
    async run(ctl: Ctl) {
      const app = new App(ctl, { params: opt });
      app.create();
      const told: string[] = [];
      const slow: (() => void)[] = [];
      app.client.use(async (c: any, next: any) => {
        if (c.update.type === "connectionState") {
          told.push(c.update.connectionState);
          ctl.note(`told: ${c.update.connectionState}`);
          check(["ready", "notConnected", "updating"].includes(c.update.connectionState), "an unknown state");
          if (acts.includes("slow") && ctl.choose(2, "slow")) await new Promise<void>((r) => slow.push(r));
        }
        await next();
      });
      await app.start();
      await settle();
      const reality = () => app.client.isConnected ? "ready" : "notConnected";
      let hold = false, connecting = 0, wished = true;
      app.onRequest = (r) => hold && r.q._ === "updates.getDifference" ? null : undefined;
      const quiet = () => app.held.every((r) => !r.link.open) && !slow.length && connecting === 0;
      for (let i = 0; i < 7; i++) {
        await settle();
        app.checkUnhandled();
        if (quiet() && (app.client.isConnected || app.client.isDisconnected) && !app.held.length) {
          check(told.at(-1) === reality(), () => `told ${told}, and it is ${reality()}`, `the last state told is ${told.at(-1)}, and it is ${reality()}`);
        }
        const opts: [string, () => void | Promise<void>][] = [["stop", () => {}]];
        const open = app.main();
        if (open) opts.push(["drop", () => (ctl.step("the connection is lost"), open.conn.drop(open))]);
        if (open && acts.includes("gap")) opts.push(["gap", () => (ctl.step("push updatesTooLong"), void app.push({ _: "updatesTooLong" }))]);
        if (acts.includes("hold") && !hold) opts.push(["hold", () => (ctl.step("answers are slow"), void (hold = true))]);
        if (slow.length) opts.push(["go on", () => (ctl.step("a handler goes on"), slow.shift()!())]);
        const h = app.held.find((r) => r.link.open);
        if (h) opts.push(["answer", () => (ctl.step("answer"), app.answer(h, app.fallback(h)!))], ["error", () => (ctl.step("answer INTERNAL"), app.answer(h, { error: [400, "INTERNAL"] }))]);
        if (acts.includes("disconnect")) {
          if (wished) {
            opts.push(["disconnect", () => {
              ctl.step("disconnect");
              wished = false;
              connecting++;
              app.client.disconnect().then(() => connecting--, () => connecting--);
            }]);
          } else {
            opts.push(["connect", () => {
              ctl.step("connect");
              wished = true;
              connecting++;
              app.client.connect().then(() => connecting--, () => connecting--);
            }]);
          }
        }
        opts.push(["time", async () => (ctl.step("5 seconds pass"), await advance(5000))]);
        const o = ctl.choose(opts.length, opts.map((o) => o[0]).join());
        if (!o) break;
        await opts[o][1]();
      }
      // then everything goes on
      hold = false;
      for (let i = 0; i < 40; i++) {
        await settle();
        app.checkUnhandled();
        for (const s of slow.splice(0)) s();
        for (const h of app.held.splice(0)) if (h.link.open) app.answer(h, app.fallback(h)!);
        await settle();
        await advance(1000);
      }
      check(connecting === 0, "a call does not end");
      check(wished === app.client.isConnected, wished ? "the client does not connect" : "the client stays connected");
      check(told.at(-1) === reality(), () => `told ${told}, and it is ${reality()}`, `the last state told is ${told.at(-1)}, and it is ${reality()}`);
      ctl.outcome(told.join());
    },
  };
}
void W;

export default {
  id: "N03",
  level: "model_checking",
  rule: "every order of calls, answers, errors and losses, and every decision of every handler of errors (call next once or twice, repeat at once or later, give up, throw), within the deviation budget; every order of losses, gaps, slow or failing answers, slow handlers, disconnections and connections within it; non-trivial when the ends of the calls or the states told are new",
  assumptions: ["handlers of errors await what they start"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const E: [number, string][] = [[400, "X_INVALID"], [420, "FLOOD_WAIT_5"], [420, "FLOOD_WAIT_11"]];
    return [
      errors("no handlers", { handlers: 0, calls: 2, defaults: true, errors: [...E, [420, "FLOOD_WAIT_10"]], budget: 3 + d }),
      errors("no default handlers", { handlers: 0, calls: 2, defaults: false, errors: E, budget: 3 + d }),
      errors("one handler", { handlers: 1, calls: 1, defaults: true, errors: E, budget: 5 + d }),
      errors("two handlers", { handlers: 2, calls: 1, defaults: false, errors: E.slice(0, 2), budget: 5 + d }),
      errors("two handlers after the default one", { handlers: 2, calls: 1, defaults: true, errors: E, budget: 4 + d }),
      errors("three handlers", { handlers: 3, calls: 1, defaults: false, errors: E.slice(0, 1), budget: 4 + d }),
      errors("two calls", { handlers: 2, calls: 2, defaults: true, errors: E.slice(0, 2), budget: 3 + d }),
      errors("losses", { handlers: 1, calls: 2, defaults: true, errors: E.slice(0, 1), drop: true, budget: 3 + d }),
      states("states, losses", ["gap", "hold"], 5),
      states("states, disconnections", ["disconnect", "gap", "hold"], 4 + d),
      states("states, slow handlers", ["slow", "gap", "disconnect"], 4 + d),
      states("states, no updates", ["disconnect", "gap"], 4 + d, { disableUpdates: true }),
    ];
  },
} satisfies CheckDef;
