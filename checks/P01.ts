// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { settle } from "../lib/world.ts";
import { Mutex } from "/repo/utilities/0_mutex.ts";
import { Queue } from "/repo/utilities/2_queue.ts";
import { AbortableLoop } from "/repo/client/0_abortable_loop.ts";

interface Task {
  id: number;
  by: string;
  state: "new" | "running" | "done";
  finish?: (ok: boolean) => void;
}

/** Functions are added to a queue from outside, from running functions, and when one ends; they end well or not. */
function queue(name: string, total: number, budget: number): Scenario {
  return {
    name: `queue, ${name}`,
    budget,
    async run(ctl: Ctl) {
      const q = new Queue("x");
      const tasks: Task[] = [];
      let next = 0;
      const add = (by: string) => {
        const t: Task = { id: tasks.length, by, state: "new" };
        tasks.push(t);
        ctl.step(`${t.id} is added ${by}`);
        q.add(async () => {
          check(t.state === "new", "a function runs twice");
          check(t.id === next, () => `function ${t.id} runs when it is ${next}'s turn`, "functions run in another order");
          check(!tasks.some((x) => x.state === "running"), "two functions run at once");
          next++;
          t.state = "running";
          ctl.note(`${t.id} runs`);
          const kind = ctl.pick(["later", "at once", "throws", "adds"], "kind", 1);
          if (kind === "adds" && tasks.length < total) add(`by ${t.id}`);
          if (kind === "later" || kind === "adds") await new Promise<void>((res, rej) => (t.finish = (ok) => (t.state = "done", ok ? res() : rej(new Error("x")))));
          else t.state = "done";
          if (kind === "throws") throw new Error("x");
        });
      };
      for (let i = 0; i < 60; i++) {
        await settle();
        const running = tasks.find((t) => t.state === "running");
        check(running || tasks.every((t) => t.state === "done"), "the queue has stopped");
        const opts: [string, () => void][] = [];
        if (tasks.length < total) opts.push(["add", () => add("from outside")]);
        if (running) opts.push(["ends", () => (ctl.step(`${running.id} ends`), running.finish!(true))], ["fails", () => (ctl.step(`${running.id} fails`), running.finish!(false))]);
        if (running && tasks.length < total) opts.push(["ends and add", () => (ctl.step(`${running.id} ends`), running.finish!(true), add("at the same time"))]);
        if (!opts.length) break;
        opts[ctl.free(opts.length, opts.map((o) => o[0]).join())][1]();
      }
      ctl.outcome(ctl.log.join());
    },
  };
}

/** Tasks that take a lock, hold it over one or several awaits, and give it back; now and then twice. */
function mutex(n: number): Scenario {
  return {
    name: `mutex, ${n} tasks`,
    async run(ctl: Ctl) {
      const m = new Mutex();
      const order: number[] = [], asked: number[] = [];
      let holder = -1;
      const state: string[] = Array(n).fill("idle");
      const unlocks: (() => void)[] = [];
      for (let i = 0; i < 60; i++) {
        await settle();
        const opts: [string, () => void][] = [];
        const idle = state.indexOf("idle");
        if (idle >= 0) {
          opts.push([`lock ${idle}`, () => {
            state[idle] = "waits";
            asked.push(idle);
            ctl.step(`${idle} asks for the lock`);
            m.lock().then((u: () => void) => {
              check(holder === -1, "two tasks hold the lock");
              holder = idle;
              order.push(idle);
              state[idle] = "holds";
              unlocks[idle] = u;
            });
          }]);
        }
        if (holder >= 0) {
          opts.push([`unlock ${holder}`, () => {
            const h = holder;
            ctl.step(`${h} gives the lock back`);
            holder = -1;
            state[h] = "done";
            unlocks[h]();
          }]);
        }
        // giving it back again has no effect
        const done = state.findIndex((s, k) => s === "done" && unlocks[k]);
        if (done >= 0) {
          opts.push([`unlock ${done} again`, () => {
            ctl.step(`${done} gives the lock back again`);
            unlocks[done]();
            delete unlocks[done];
          }]);
        }
        check(holder >= 0 || !state.includes("waits"), "a task waits for a lock nobody holds");
        if (!opts.length) break;
        opts[ctl.free(opts.length, opts.map((o) => o[0]).join())][1]();
      }
      check(order.join() === asked.join(), "the lock is not given in the order it was asked for");
      ctl.outcome(ctl.log.join());
    },
  };
}

/** A loop that is started, aborted and started again, from outside and from its own functions. */
function loop(depth: number): Scenario {
  return {
    name: `loop, ${depth} steps`,
    async run(ctl: Ctl) {
      let running = 0, wanted = false, runs = 0;
      let finish: ((ok: boolean) => void) | undefined;
      let signal: AbortSignal | undefined;
      let abortedWhileRunning = false, errors = 0, wantErrors = 0;
      let inner: string | null = null;
      const act = (what: string, l: AbortableLoop) => {
        if (what === "start") {
          wanted = true;
          l.start();
        } else if (what === "abort") {
          wanted = false;
          abortedWhileRunning = running > 0;
          l.abort();
          check(!running || signal!.aborted, "the body is not told of the abortion");
        }
      };
      const l = new AbortableLoop(async (self, s) => {
        check(running === 0, "the body runs twice at once");
        check(wanted, "the body runs though the loop was aborted");
        check(!s.aborted, "the body is given an aborted signal");
        running++;
        runs++;
        signal = s;
        abortedWhileRunning = false;
        const mine = inner;
        inner = null;
        if (mine) act(mine, self);
        try {
          await new Promise<void>((res, rej) => (finish = (ok) => (finish = undefined, ok ? res() : rej(new Error("x")))));
        } finally {
          running--;
        }
      }, (self, err: any) => {
        errors++;
        check(err?.message === "x", "another error");
        const mine = inner;
        inner = null;
        if (mine) act(mine, self);
      });
      for (let i = 0; i < depth; i++) {
        await settle();
        check(errors === wantErrors, errors < wantErrors ? "an error is not reported" : "an error is reported after an abortion");
        check(running === 0 || running === 1, "the body runs twice at once");
        check(!wanted || running === 1, "the loop has stopped");
        const opts = ["start", "abort", "start and abort", "abort and start"];
        if (finish) opts.push("ends", "fails", "fails, aborts when told", "ends, aborts at once", "ends, aborts and starts at once");
        const o = opts[ctl.free(opts.length, opts.join())];
        ctl.step(o);
        if (o === "start" || o === "abort") act(o, l);
        else if (o === "start and abort") act("start", l), act("abort", l);
        else if (o === "abort and start") act("abort", l), act("start", l);
        else {
          const ok = o.startsWith("ends");
          if (!ok && !signal!.aborted) wantErrors++;
          if (o === "fails, aborts when told" && !signal!.aborted) inner = "abort";
          if (o === "ends, aborts at once" && wanted) inner = "abort";
          const restarts = o === "ends, aborts and starts at once" && wanted;
          finish!(ok);
          if (restarts) act("abort", l), act("start", l);
        }
        ctl.state(`${running}${wanted}${signal?.aborted}${!!finish}`);
      }
      void abortedWhileRunning;
      ctl.outcome(`${runs}/${errors}/${ctl.log.join()}`);
    },
  };
}

export default {
  id: "P01",
  level: "model_checking",
  rule: "every sequence of functions added (from outside, by a running function, while one ends), ended and failed; every sequence of locks asked for and given back (once or twice); every sequence of starts, abortions, ends and failures of a loop, up to the stated lengths; non-trivial when the sequence of events is new",
  assumptions: ["functions in queues return a promise and do not throw before they do"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    return [queue("few", 3 + d, 3), queue("more", 4 + d, 1), mutex(3), mutex(4 + d), loop(5 + d)];
  },
} satisfies CheckDef;
