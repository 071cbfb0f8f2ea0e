// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { Account, CH } from "../lib/account.ts";
import { channel } from "../lib/client.ts";
import { advance, settle, timers, W } from "../lib/world.ts";

const CHAT = -1000000000050;

interface Cfg {
  name: string;
  acts: string[];
  budget: number;
  params?: any;
  timeout?: number;
  moves: string[];
}

function polling(cfg: Cfg): Scenario {
  const acts = new Set(cfg.acts);
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl: Ctl) => {
      const a = new Account(ctl, {});
      a.app.create();
      a.use();
      await a.app.start();
      a.app.push({ _: "updates", updates: [{ _: "updateChannel", channel_id: CH }], users: [], chats: [channel(CH)], date: 5, seq: 0 });
      await settle();
      a.announce("chmsg", [a.event("chmsg")]);
      a.deliver(0);
      await settle();
      a.timeoutOfChannels = cfg.timeout;
      const period = (cfg.params?.timeout ?? cfg.timeout ?? 10) * 1000;
      a.auto = false;
      a.slices = acts.has("slice");
      // every request for a difference has to have a reason
      let sent = 0, reasons = 0, lastPoll = 0;
      const previous = a.app.onRequest!;
      a.app.onRequest = (r: any) => {
        if (r.q._ === "updates.getChannelDifference") {
          sent++;
          lastPoll = W.now;
          check(sent <= reasons + 1, () => `${sent} requests for the channel's difference were sent and there were reasons for ${reasons}`, "the chat is polled without pause");
        }
        return previous(r);
      };
      let open = false;
      const api: Record<string, () => void | Promise<void>> = {
        open: async () => {
          ctl.step("openChat");
          reasons++;
          open = true;
          await a.app.client.openChat(CHAT, cfg.params);
        },
        close: async () => {
          ctl.step("closeChat");
          open = false;
          await a.app.client.closeChat(CHAT);
        },
        message: () => {
          ctl.step("happens: chmsg");
          a.announce("chmsg", [a.event("chmsg")]);
        },
        silent: () => {
          ctl.step("happens silently: chmsg");
          a.event("chmsg");
        },
        pass: async () => {
          ctl.step("time passes");
          reasons++;
          await advance(period);
        },
      };
      let at = 0;
      for (let i = 0; i < 80; i++) {
        const opts: [string, () => void | Promise<void>][] = [];
        const move = () => api[cfg.moves[at++]]();
        const more = at < cfg.moves.length;
        const deliver = (k: number) => {
          const item = a.queue[k];
          if (item.kind === "push") reasons++;
          else if (item.answer?.result && !item.answer.result.final) reasons++;
          a.deliver(k);
        };
        if (a.queue.length) opts.push(["deliver", () => deliver(0)]);
        if (more) opts.push(["move", move]);
        if (!opts.length) break;
        if (a.queue.length > 1) opts.push(["deliver #1", () => deliver(1)]);
        if (a.queue[0]?.kind === "push" && acts.has("lose")) opts.push(["lose", () => a.lose(0)]);
        const k = a.queue.findIndex((x) => x.kind === "answer");
        if (k >= 0 && acts.has("error")) {
          opts.push(["error", () => {
            a.queue[k].answer = { error: [500, "INTERNAL"] };
            a.deliver(k);
          }]);
        }
        if (acts.has("time")) opts.push(["time", api.pass]);
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join(","))];
        await run();
        await settle();
        a.app.checkUnhandled();
      }
      const answer = async () => {
        for (let i = 0; i < 20 && a.queue.length; i++) {
          if (!a.queue[0].answer?.result?.final) reasons++;
          a.deliver(0);
          await settle();
        }
      };
      await answer();
      if (open) {
        // what happens is noticed without any update
        const e = a.event("chmsg");
        for (let t = 0; t <= period * 2 + 31_000; t += 1000) {
          if (W.now - lastPoll >= period - 1000) reasons++;
          await advance(1000);
          await answer();
        }
        check(a.delivered.some((d) => d.key === e.key), "the chat is open and is not polled", "an open chat is not polled");
        await api.close();
        await settle();
      }
      await advance(period);
      await answer();
      const before = sent;
      for (let i = 0; i < 3; i++) {
        await advance(period + 31_000);
        await answer();
      }
      check(sent === before, "the chat was closed and is still polled", "a closed chat is polled");
      a.announce("chmsg", [a.event("chmsg")]);
      await answer();
      a.verify();
      ctl.outcome(`${a.delivered.map((d) => d.key).join()} ${sent}`);
    },
  };
}
void timers;

export default {
  id: "U06",
  level: "model_checking",
  rule: "every order of opening, closing, updates, answers, errors and time within the deviation budget; an execution is non-trivial when its sequence of delivered updates or its number of requests is new",
  assumptions: ["the server computes channel differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, moves: string, acts: string, budget: number, extra: any = {}) => polling({ name, moves: moves.split(" "), acts: acts.split(" "), budget: budget + d, ...extra });
    return [
      c("polls", "open silent pass message pass", "slice lose time", 3),
      c("reopen", "open close open silent pass", "time", 4),
      c("server's timeout", "open pass silent pass close message", "time lose", 3, { timeout: 3 }),
      c("user's timeout", "open pass silent pass close open", "time", 3, { params: { timeout: 2 }, timeout: 30 }),
      c("errors", "open silent pass", "error time", 3),
      c("closing", "open message silent close message open pass", "lose error", 3),
    ];
  },
} satisfies CheckDef;
