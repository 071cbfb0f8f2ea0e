// The network statistics, against what has gone over the network.
// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, settle } from "../lib/world.ts";
import { App, SELF } from "../lib/client.ts";
import { testKey } from "../lib/mt.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";

interface Counts {
  messages: { sent: number; received: number };
  media: { sent: number; received: number };
}
const none = (): Counts => ({ messages: { sent: 0, received: 0 }, media: { sent: 0, received: 0 } });
const FIELDS = [["messages", "sent"], ["messages", "received"], ["media", "sent"], ["media", "received"]] as const;

class Run {
  disk = new Disk();
  held: { label: string; go: () => void; fail: () => void }[] = [];
  storage!: ModelStorage;
  app!: App;
  /** of earlier runs, and of this one */
  before = none();
  slow = true;
  constructor(public ctl: Ctl) {}
  async start(restarted: boolean) {
    this.storage = new ModelStorage(this.disk, (op, key) => {
      if (op !== "incr" || !this.slow) return;
      const label = key.join("/");
      return new Promise<void>((go, fail) => this.held.push({ label, go, fail: () => fail(new Error("disk error")) }));
    });
    if (!restarted) await this.storage.branch("4_media").set(["auth"], { apiId: 5, authKey: testKey(), dc: "4", isBot: false, userId: Number(SELF) });
    this.app = new App(this.ctl, { params: { defaultHandlers: false, storage: this.storage, persistCache: true } });
    this.app.create();
    this.app.onRequest = (r) => r.q._ === "help.getNearestDc" ? { result: { _: "nearestDc", country: "DE", this_dc: 2, nearest_dc: 2 } } : undefined;
    await this.app.start(restarted);
  }
  /** What has gone over the network. */
  counts(): Counts {
    const c = structuredClone(this.before);
    for (const l of this.app.net.links) {
      const to = c[(l.conn as any).isMedia ? "media" : "messages"];
      for (const b of l.fromClient) to.sent += b.length;
      to.received += l.read;
    }
    return c;
  }
  async call(media: boolean) {
    this.app.client.invoke({ _: "help.getNearestDc" }, media ? { dc: "4", type: "download" } : undefined).catch(() => {});
    await settle();
  }
  async stored(): Promise<Counts> {
    return await this.app.client.getNetworkStatistics();
  }
  async drain() {
    for (let i = 0; this.held.length; i++) {
      check(i < 100, "the statistics are written forever", "endless writes");
      this.held.shift()!.go();
      await settle();
    }
  }
}
function scenario(name: string, depth: number, failures: boolean): Scenario {
  return {
    name,
    shard: true,
    async run(ctl: Ctl) {
      const t = new Run(ctl);
      t.slow = false;
      await t.start(false);
      t.slow = true;
      const same = async (exact: boolean) => {
        const got = await t.stored(), want = t.counts();
        for (const [a, b] of FIELDS) {
          check(exact ? got[a][b] === want[a][b] : got[a][b] <= want[a][b], () => `${a} ${b}: ${got[a][b]} are counted, and ${want[a][b]} were`, `${a} ${b} in the statistics`);
        }
      };
      let restarts = 0;
      for (let i = 0; i < depth; i++) {
        const events: [string, () => Promise<void>][] = [
          ["a call", () => t.call(false)],
          ["a download", () => t.call(true)],
        ];
        for (let k = 0; k < t.held.length; k++) {
          const h = t.held[k];
          events.push([`${h.label} is written`, async () => (t.held.splice(k, 1), h.go(), await settle())]);
          if (failures) events.push([`${h.label} is not written`, async () => (t.held.splice(k, 1), h.fail(), await settle())]);
        }
        if (restarts < 1 && i) {
          events.push(["restart", async () => {
            restarts++;
            await t.drain();
            await t.call(false);
            await t.call(true);
            await t.drain();
            t.app.client.disconnect();
            await advance(20);
            await t.drain();
            t.before = t.counts();
            t.slow = false;
            await t.start(true);
            t.slow = true;
          }]);
        }
        const [label, go] = ctl.pick(events, "event");
        ctl.step(label);
        await go();
        await same(false);
      }
      // what could not be written is written along with what comes next
      await t.drain();
      await t.call(false);
      await t.call(true);
      await t.drain();
      await same(true);
      ctl.outcome(`${restarts} restarts`);
      t.app.client.disconnect();
      await advance(20);
      await t.drain();
      t.app.checkUnhandled();
    },
  };
}
export default {
  id: "S04",
  level: "model_checking",
  rule: "calls and downloads of the complete client, whose storage completes or refuses each write of the statistics at any moment, restarts; what is counted is never more than what went over the network, and exactly that at the end",
  assumptions: [],
  exhaustive: true,
  scenarios: (tier) => [scenario("slow storage", tier === "thorough" ? 8 : 7, false), scenario("failing storage", tier === "thorough" ? 7 : 6, true)],
} satisfies CheckDef;
