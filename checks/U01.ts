// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import type { Ctl, Scenario } from "../lib/explore.ts";
import { Account, CH, type Kind } from "../lib/account.ts";
import { channel } from "../lib/client.ts";
import { advance, settle } from "../lib/world.ts";

export interface UpdateCfg {
  script: (Kind | Kind[])[];
  acts: Set<string>;
  budget: number;
  params?: any;
  isBot?: boolean;
  steps?: number;
  setup?: (a: Account) => Promise<void>;
  /** the events created at the end, which reveal every gap */
  last?: Kind[];
  shard?: boolean;
}
export function updates(name: string, cfg: UpdateCfg): Scenario {
  return {
    name,
    budget: cfg.budget,
    shard: cfg.shard ?? true,
    run: async (ctl: Ctl) => {
      const a = new Account(ctl, { params: cfg.params, isBot: cfg.isBot });
      a.app.create();
      a.use();
      if (cfg.acts.has("start")) a.app.onRequest = ((f) => (r: any) => (r.q._ === "users.getUsers" && (a.auto = false), f!(r)))(a.app.onRequest);
      await a.app.start();
      await cfg.setup?.(a);
      a.auto = false;
      a.channelsInDifference = cfg.acts.has("drop") && cfg.acts.has("channels");
      a.slices = cfg.acts.has("slice");
      a.tooLong = cfg.acts.has("toolong");
      let at = 0;
      const create = () => {
        const step = cfg.script[at++];
        const kinds = Array.isArray(step) ? step : [step];
        ctl.step(`happens: ${kinds.join("+")}`);
        const ev = kinds.map((k) => a.event(k));
        if (kinds[0] === "combined") ev.push(a.event("read"));
        a.announce(kinds[0], ev, true);
      };
      for (let i = 0; i < (cfg.steps ?? 60); i++) {
        const opts: [string, () => void | Promise<void>][] = [];
        const more = at < cfg.script.length;
        if (a.queue.length) opts.push(["deliver", () => a.deliver(0)]);
        else if (more) opts.push(["create", create]);
        else break;
        if (a.queue.length) {
          const head = a.queue[0];
          if (more) opts.push(["create early", create]);
          for (let k = 1; k < Math.min(a.queue.length, 3); k++) opts.push([`deliver #${k}`, () => a.deliver(k)]);
          if (head.kind === "push") {
            if (cfg.acts.has("lose")) opts.push(["lose", () => a.lose(0)]);
            if (cfg.acts.has("dup") && !head.duplicate) opts.push(["duplicate", () => a.deliver(0, true)]);
          }
          if (cfg.acts.has("error") && head.kind === "answer") {
            opts.push(["error", () => {
              head.answer = { error: [500, "INTERNAL"] };
              a.deliver(0);
            }]);
          }
        }
        if (cfg.acts.has("drop")) opts.push(["drop", () => a.drop()]);
        if (cfg.acts.has("updatesTooLong")) {
          opts.push(["updatesTooLong", () => {
            ctl.step("push updatesTooLong");
            a.app.push({ _: "updatesTooLong" });
          }]);
        }
        if (cfg.acts.has("ptsChanged")) {
          opts.push(["updatePtsChanged", () => {
            ctl.step("push updatePtsChanged");
            a.app.push({ _: "updateShort", update: { _: "updatePtsChanged" }, date: 5 });
          }]);
        }
        if (cfg.acts.has("chtoolong")) {
          opts.push(["updateChannelTooLong", () => {
            const pts = ctl.choose(2, "pts given") ? a.channelPts.get(CH) : undefined;
            ctl.step(`push updateChannelTooLong ${pts ?? ""}`);
            a.app.push({ _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: CH, pts }], users: [], chats: [channel(CH)], date: 5, seq: 0 });
          }]);
        }
        if (cfg.acts.has("garbage")) {
          opts.push(["garbage", () => {
            ctl.step("push an unknown update");
            const l = a.app.main()!;
            l.conn.deliver(l, a.app.server.seal(a.app.sessionOf(l)!, new Uint8Array([1, 2, 3, 4, 5, 6, 7, 8])));
          }]);
        }
        if (cfg.acts.has("time")) opts.push(["15 minutes", async () => (ctl.step("15 minutes pass"), await advance(16 * 60_000))]);
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join(","))];
        await run();
        await settle();
        a.app.checkUnhandled();
        if (a.slowHandlers) for (const f of a.slowHandlers.splice(0)) f();
        await settle();
      }
      // whatever was lost is noticed with the next update
      for (let i = 0; i < 60 && a.queue.length; i++) {
        a.deliver(0);
        await settle();
      }
      for (const k of cfg.last ?? ["msg"]) {
        a.announce(k, [a.event(k)], true);
        for (let i = 0; i < 60 && a.queue.length; i++) {
          a.deliver(0);
          await settle();
        }
      }
      a.verify();
      ctl.outcome(a.delivered.map((d) => d.key).join());
    },
  };
}
export const S = (...x: string[]) => new Set(x);

export default {
  id: "U01",
  level: "model_checking",
  rule: "every history of updates and every order, loss, duplication and delay of what the server sends within the deviation budget; an execution is non-trivial when its sequence of delivered updates is new",
  assumptions: ["the server numbers updates and computes differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: (Kind | Kind[])[], acts: string[], budget: number, extra: Partial<UpdateCfg> = {}) => updates(name, { script, acts: S(...acts), budget: budget + d, ...extra });
    return [
      c("orders", ["msg", "del", "msg", "read"], ["slice"], 3),
      c("losses", ["msg", "del", "msg"], ["lose", "dup", "slice"], 3),
      c("short forms", ["short", "shortmsg", "short"], ["lose", "dup"], 3),
      c("combined", ["combined", "msg", "combined"], ["lose", "dup"], 3),
      c("several in one", [["msg", "del"], ["msg", "msg", "read"]], ["lose", "dup", "slice"], 3),
      c("reconnections", ["msg", "del", "msg"], ["drop", "lose", "slice"], 3),
      c("resets", ["msg", "del", "msg"], ["updatesTooLong", "garbage", "lose"], 3),
      c("too long", ["msg", "del", "msg"], ["toolong", "lose", "slice"], 3),
      c("errors", ["msg", "del", "msg"], ["error", "lose"], 3),
      c("unknown senders", ["far", "msg", "far"], ["lose", "dup"], 3),
      c("silence", ["msg", "msg"], ["time", "lose"], 3),
      c("start", ["msg", "del", "msg"], ["start", "lose", "dup"], 3),
    ];
  },
} satisfies CheckDef;
