// Disconnecting at any moment: everything that was under way ends, and nothing goes on.
// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, settle, timers, W } from "../lib/world.ts";
import { App, channel, type Request, SELF, selfUser, user } from "../lib/client.ts";
import { testKey } from "../lib/mt.ts";
import { Disk, ModelStorage } from "../lib/storage.ts";
import { FileType, serializeFileId } from "/repo/types/_file_id.ts";

const CHAT = -1000000000050;
const FILE = serializeFileId({ type: FileType.Document, dcId: 4, fileReference: Uint8Array.of(1), location: { type: "common", id: 77n, accessHash: 78n } } as any);
const message = (id: number) => ({ _: "message", out: true, id, peer_id: { _: "peerUser", user_id: 11n }, date: 5, message: "m" });
const updates = (list: any[] = []) => ({ _: "updates", updates: list, users: [], chats: [], date: 1, seq: 0 });

/** What the server says to a request in the end. */
function answer(q: any): any {
  switch (q._) {
    case "help.getNearestDc":
      return { _: "nearestDc", country: "DE", this_dc: 2, nearest_dc: 2 };
    case "messages.sendMedia": {
      const document = { _: "document", id: 5n, access_hash: 6n, file_reference: Uint8Array.of(1), date: 5, mime_type: "a/b", size: 700_000n, dc_id: 2, attributes: [{ _: "documentAttributeFilename", file_name: "f" }] };
      return updates([{ _: "updateNewMessage", message: { ...message(21), media: { _: "messageMediaDocument", document } }, pts: 1, pts_count: 0 }]);
    }
    case "messages.sendMessage":
      return updates([{ _: "updateNewMessage", message: message(20), pts: 1, pts_count: 0 }]);
    case "upload.getFile":
      return { _: "upload.file", type: { _: "storage.fileUnknown" }, mtime: 0, bytes: new Uint8Array(q.offset < 2n * BigInt(q.limit) ? q.limit : 5) };
    case "upload.saveFilePart":
    case "upload.saveBigFilePart":
      return true;
    case "updates.getChannelDifference":
      return { _: "updates.channelDifferenceEmpty", final: true, pts: 5, timeout: 10 };
    case "channels.getFullChannel":
      return undefined;
  }
}
type Activity = (t: Run) => Promise<any> | void;
const ACTIVITIES: Record<string, Activity> = {
  call: (t) => t.app.client.invoke({ _: "help.getNearestDc" }),
  getMe: (t) => t.app.client.getUser?.(13) ?? t.app.client.getMe(),
  message: (t) => t.app.client.sendMessage(11, "m"),
  download: async (t) => {
    for await (const _ of t.app.client.download(FILE, { chunkSize: 65536 })) { /* */ }
  },
  upload: (t) => t.app.client.sendDocument(11, new Uint8Array(700_000).fill(7), { fileName: "f" }),
  "call elsewhere": (t) => t.app.client.invoke({ _: "help.getNearestDc" }, { dc: "4" }),
  chat: (t) => t.app.client.openChat(CHAT),
  gap: (t) => void t.app.push(updates([{ _: "updateNewMessage", message: message(30), pts: 9, pts_count: 1 }])),
};

class Run {
  app!: App;
  disk = new Disk();
  storage = new ModelStorage(this.disk);
  under: { name: string; end?: string; error?: any }[] = [];
  holding = false;
  constructor(public ctl: Ctl) {}
  async start() {
    await this.storage.branch("4_media").set(["auth"], { apiId: 5, authKey: testKey(), dc: "4", isBot: false, userId: Number(SELF) });
    await this.storage.branch("4").set(["auth"], { apiId: 5, authKey: testKey(), dc: "4", isBot: false, userId: Number(SELF) });
    this.app = new App(this.ctl, { params: { storage: this.storage } });
    this.app.create();
    this.app.onRequest = (r) => this.holding ? null : this.reply(r);
    await this.app.start();
    this.app.push({ _: "updates", updates: [{ _: "updateConfig" }, { _: "updateNewChannelMessage", message: { ...message(3), peer_id: { _: "peerChannel", channel_id: 50n } }, pts: 5, pts_count: 1 }], users: [selfUser(), user(11n), user(13n)], chats: [channel(50n)], date: 1, seq: 0 });
    await settle();
    this.app.push({ _: "updates", updates: [{ _: "updateNewMessage", message: message(2), pts: 1, pts_count: 0 }], users: [], chats: [], date: 1, seq: 0 });
    await settle();
    this.holding = true;
  }
  reply(r: Request): any {
    const a = answer(r.q);
    return a === undefined ? undefined : { result: a };
  }
  respond(r: Request, a?: any) {
    this.app.answer(r, a ?? this.reply(r) ?? this.app.fallback(r) as any);
  }
  begin(name: string) {
    const u: { name: string; end?: string; error?: any } = { name };
    this.under.push(u);
    const p = ACTIVITIES[name](this);
    if (!p) u.end = "done";
    else p.then(() => u.end = "done", (e: any) => (u.end = e?.constructor?.name ?? "?", u.error = e));
  }
  /** All requests that can still be answered. */
  get held() {
    return this.app.held.filter((r) => r.link.open);
  }
}
function scenario(names: string[], steps: number, budget: number): Scenario {
  return {
    name: names.join(", "),
    budget,
    shard: true,
    async run(ctl: Ctl) {
      const t = new Run(ctl);
      await t.start();
      const net = t.app.net;
      net.autoOpen = false;
      for (const n of names) t.begin(n);
      await settle();
      const at = ctl.choose(steps, "disconnects after", 0);
      for (let i = 0; i < at; i++) {
        const a: [string, () => void | Promise<void>][] = [];
        const r = t.held[0];
        if (r) a.push([`answer ${r.q._}`, () => t.respond(r)]);
        if (net.pendingOpens.length) a.push(["accept", () => void net.pendingOpens[0].accept()]);
        if (timers()[0]) a.push(["next timer", () => advance(Math.max(0, timers()[0].at - W.now))]);
        if (!a.length) break;
        if (t.held.length > 1) a.push([`answer ${t.held.at(-1)!.q._}`, () => t.respond(t.held.at(-1)!)]);
        if (r) {
          a.push(["wait", () => t.respond(r, { error: [420, "FLOOD_WAIT_4"] })]);
          a.push(["refuse", () => t.respond(r, { error: [500, "INTERNAL"] })]);
        }
        for (const l of net.live.slice(0, 2)) a.push([`lose ${l.conn.dc}${l.conn.isMedia ? " media" : ""}`, () => l.conn.drop(l)]);
        if (net.pendingOpens.length) a.push(["refuse the connection", () => net.pendingOpens[0].refuse()]);
        const k = ctl.choose(a.length, a.map((x) => x[0]).join("|"));
        ctl.step(a[k][0]);
        await a[k][1]();
        await settle();
      }
      ctl.step("disconnect");
      const packets = () => net.links.reduce((n, l) => n + l.fromClient.length, 0);
      const turns = ctl.choose(4, "turns", 1);
      let over = false;
      const before = packets(), opens = net.opens;
      Promise.resolve(t.app.client.disconnect()).then(() => over = true, () => over = true);
      for (let i = 0; i < turns; i++) await Promise.resolve();
      await settle();
      // what was being opened may still open, to be closed at once
      while (net.pendingOpens.length) {
        net.pendingOpens[0].accept();
        await settle();
      }
      check(net.live.length === 0, () => `${net.live.length} connections are open after disconnecting`, "a connection after disconnecting");
      // transfers try again for some minutes, in case the client connects again; all else takes ten seconds at most
      const patient = names.some((n) => n === "download" || n === "upload");
      for (let s = 0; s < 12; s++) {
        await advance(patient ? 25_000 : 1000);
        await settle();
        while (net.pendingOpens.length) {
          net.pendingOpens[0].accept();
          await settle();
        }
        check(net.live.length === 0, () => `${net.live.length} connections are open after disconnecting`, "a connection after disconnecting");
      }
      check(over, "disconnecting never ends", "disconnecting never ends");
      check(net.opens <= opens, () => `${net.opens - opens} connections were begun after disconnecting`, "a connection after disconnecting");
      check(packets() <= before, () => `${packets() - before} packets were sent after disconnecting`, "packets after disconnecting");
      for (const u of t.under) check(u.end, () => `${u.name} goes on after disconnecting`, "something goes on after disconnecting");
      const left = timers();
      check(left.length === 0, () => `after disconnecting something still waits for ${left.map((x) => (x.at - W.now) / 1000 + " s").join(", ")}`, "a timer after disconnecting");
      t.app.checkUnhandled();
      // and all goes on when it is asked to
      net.autoOpen = true;
      t.holding = false;
      t.app.held = [];
      ctl.step("connect");
      t.under = [];
      let connected = false;
      t.app.client.connect().then(() => connected = true, (e: any) => check(false, () => `connecting again fails with ${e?.stack}`, "connecting again fails"));
      await settle();
      check(connected, "connecting again never ends", "connecting again never ends");
      for (const n of names) if (n !== "gap") t.begin(n);
      for (let s = 0; s < 20 && !t.under.every((u) => u.end); s++) {
        await advance(1000);
        await settle();
      }
      for (const u of t.under) check(u.end === "done", () => `after connecting again, ${u.name} ${u.end ? "fails with " + (u.error?.stack ?? u.end) : "never ends"}`, "connecting again does not help");
      t.app.client.disconnect();
      await advance(2000);
      check(net.live.length === 0 && timers().length === 0, "something is left after disconnecting for the second time", "a timer after disconnecting");
      t.app.checkUnhandled();
      ctl.outcome(JSON.stringify(at));
    },
  };
}
export default {
  id: "N04",
  level: "model_checking",
  rule: "every moment, within the deviation budget of orders of answers, refusals, flood waits, lost and refused connections and timers, at which the client may be disconnected while it calls, downloads, uploads, polls and looks for missed updates",
  assumptions: ["code of the application ends with what it waits for"],
  exhaustive: true,
  scenarios: (tier) => {
    const more = tier === "thorough" ? 1 : 0;
    const names = Object.keys(ACTIVITIES);
    return [
      ...names.map((n) => scenario([n], 10, 2 + more)),
      ...names.flatMap((a, i) => names.slice(i + 1).map((b) => scenario([a, b], 9, 1 + more))),
    ];
  },
} satisfies CheckDef;
