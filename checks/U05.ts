// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { Account, CH, type Kind } from "../lib/account.ts";
import { channel, user } from "../lib/client.ts";
import { settle, W } from "../lib/world.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";

interface Cfg {
  name: string;
  /** what happens in the first run, between the runs and in the second run */
  before: Kind[];
  between: Kind[];
  after: (Kind | Kind[])[];
  acts: string[];
  budget: number;
  drop: boolean;
  bot: boolean;
  explicit: boolean;
}

function pending(cfg: Cfg): Scenario {
  const acts = new Set(cfg.acts);
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl: Ctl) => {
      const disk = new Disk();
      const a = new Account(ctl, { isBot: cfg.bot, params: cfg.explicit ? { dropPendingUpdates: cfg.drop } : {} });
      const boot = async (restarted: boolean) => {
        a.app.create({ storage: new ModelStorage(disk), persistCache: true });
        a.use();
        await a.app.start(restarted);
      };
      const announce = async (k: Kind) => {
        a.announce(k, [a.event(k)]);
        for (let i = 0; i < 40 && a.queue.length; i++) {
          a.deliver(0);
          await settle();
        }
      };
      await boot(false);
      a.app.push({ _: "updates", updates: [{ _: "updateChannel", channel_id: CH }], users: [user(9n)], chats: [channel(CH)], date: 5, seq: 0 });
      await settle();
      for (const k of cfg.before) await announce(k);
      ctl.step("the client is stopped");
      const p = a.app.client.disconnect();
      await settle();
      await p;
      a.kill();
      W.now += 60_000;
      const missed = cfg.between.map((k) => a.event(k));
      for (const e of missed) ctl.step(`missed: ${e.key}`);
      if (cfg.drop) for (const e of missed) e.lost = true;
      ctl.step("the client is started again");
      await boot(true);
      const shown = new Set(a.delivered.map((d) => d.key));
      if (cfg.drop) for (const e of missed) check(!shown.has(e.key), () => `${e.key} happened while the client was not running and was delivered`, "a pending update was not dropped");
      a.auto = false;
      a.slices = acts.has("slice");
      let at = 0;
      const create = () => {
        const step = cfg.after[at++];
        const kinds = Array.isArray(step) ? step : [step];
        ctl.step(`happens: ${kinds.join("+")}`);
        a.announce(kinds[0], kinds.map((k) => a.event(k)));
      };
      // while a channel has not been heard of, what is lost cannot be noticed
      let heard = !cfg.drop;
      for (let i = 0; i < 60; i++) {
        const opts: [string, () => void | Promise<void>][] = [];
        const more = at < cfg.after.length;
        if (a.queue.length) opts.push(["deliver", () => a.deliver(0)]);
        else if (more) opts.push(["create", create]);
        else break;
        const channelPush = (x: any) => x.kind === "push" && x.label.includes("ch");
        if (a.queue.length && more && (heard || !channelPush(a.queue[0]))) opts.push(["create early", create]);
        if (a.queue.length > 1) opts.push(["deliver #1", () => a.deliver(1)]);
        if (a.queue[0]?.kind === "push" && acts.has("lose") && (heard || !channelPush(a.queue[0]))) opts.push(["lose", () => a.lose(0)]);
        if (acts.has("chtoolong") && (heard || !a.queue.some(channelPush))) {
          opts.push(["updateChannelTooLong", () => {
            const pts = ctl.choose(2, "pts given") ? undefined : a.channelPts.get(CH);
            if (pts !== undefined) heard = true;
            ctl.step(`push updateChannelTooLong ${pts ?? ""}`);
            a.app.push({ _: "updates", updates: [{ _: "updateChannelTooLong", channel_id: CH, pts }], users: [], chats: [channel(CH)], date: 5, seq: 0 });
          }]);
        }
        if (acts.has("drop") && (heard || !a.queue.some(channelPush))) opts.push(["drop", () => a.drop()]);
        const [, run] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join(","))];
        await run();
        await settle();
        if (a.delivered.some((d) => d.key.startsWith("ch") && a.events.indexOf(a.events.find((e) => e.key === d.key)!) >= cfg.before.length + cfg.between.length)) heard = true;
        a.app.checkUnhandled();
      }
      const finish = async () => {
        for (let i = 0; i < 60 && a.queue.length; i++) {
          a.deliver(0);
          await settle();
        }
      };
      await finish();
      for (const k of ["msg", ...(cfg.after.flat().some((x) => x.startsWith("ch")) ? ["chmsg"] : []), ...(cfg.bot ? ["qbot"] : [])] as Kind[]) {
        a.announce(k, [a.event(k)]);
        await finish();
      }
      const keys = new Set(a.delivered.map((d) => d.key));
      if (cfg.drop) for (const e of missed) check(!keys.has(e.key), () => `${e.key} happened while the client was not running and was delivered`, "a pending update was not dropped");
      a.verify();
      ctl.outcome(a.delivered.map((d) => d.key).join());
    },
  };
}

export default {
  id: "U05",
  level: "model_checking",
  rule: "every order, loss and delay of what the server sends after a restart within the deviation budget; an execution is non-trivial when its sequence of delivered updates is new",
  assumptions: ["the server numbers updates and computes differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, drop: boolean, bot: boolean, explicit: boolean, before: string, between: string, after: string, acts: string, budget: number): Scenario => {
      const l = (s: string) => s.split(" ").filter(Boolean) as Kind[];
      return pending({ name, drop, bot, explicit, before: l(before), between: l(between), after: l(after), acts: l(acts), budget: budget + 1 + d });
    };
    return [
      c("bots drop", true, true, false, "msg qbot", "msg qbot del", "msg qbot del", "lose slice", 3),
      c("users keep", false, false, false, "msg chmsg", "msg chmsg del", "msg chmsg del", "lose slice", 3),
      c("bots can keep", false, true, true, "msg qbot", "qbot msg", "msg qbot msg", "lose", 3),
      c("users can drop", true, false, true, "msg", "msg del", "msg del msg", "lose drop", 3),
      c("channels drop", true, true, false, "chmsg chmsg", "chmsg chdel", "chmsg chdel chmsg", "lose", 3),
      c("channels drop (never heard of)", true, true, false, "", "chmsg chdel", "chmsg chdel chmsg", "lose", 3),
      c("channels too long", true, true, false, "chmsg", "chmsg chdel", "chmsg msg chmsg", "chtoolong", 2),
      c("reconnections", true, true, false, "msg", "msg", "msg chmsg del", "drop lose", 2),
    ];
  },
} satisfies CheckDef;
