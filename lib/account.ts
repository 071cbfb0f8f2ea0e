// A model of the server's side of updates (https://core.telegram.org/api/updates): one
// account with its common box (pts), secondary box (qts), sequence of update containers
// (seq) and channels (pts each), plus the queue of what is on its way to the client.
// deno-lint-ignore-file no-explicit-any
import { App, type AppOptions, channel, type Request, selfUser, user } from "./client.ts";
import { advance, settle, timers, turn, W } from "./world.ts";
import { check, type Ctl, fail } from "./explore.ts";

export interface Event {
  /** what identifies the update among those delivered */
  key: string;
  box: "pts" | "qts" | "none" | bigint;
  pts: number;
  count: number;
  message?: any;
  encrypted?: any;
  update: any;
  lost: boolean; // may legitimately never arrive (a difference too long)
  repeat: boolean; // may legitimately arrive more than once
}
export interface Item {
  kind: "push" | "answer";
  label: string;
  body?: any;
  request?: Request;
  answer?: any;
  duplicate?: boolean;
}
export type Kind = "msg" | "del" | "read" | "qmsg" | "qbot" | "short" | "shortmsg" | "plain" | "chmsg" | "chdel" | "chmsg2" | "chdel2" | "combined" | "far";

export const CH = 50n;
const date = () => Math.floor(W.now / 1000);

export class Account {
  app: App;
  ctl: Ctl;
  pts = 1;
  qts = 1;
  seq = 1;
  channelPts = new Map<bigint, number>();
  events: Event[] = [];
  queue: Item[] = [];
  delivered: { key: string; update: any }[] = [];
  /** Messages as applications get them. */
  shown: string[] = [];
  #n = 0;
  #resetting = false;
  nextMessage = 1;
  /** handlers take this long: resolved by the explorer */
  slowHandlers: (() => void)[] | null = null;
  auto = true;
  slices = false;
  /** the difference tells which channels have news */
  channelsInDifference = false;
  news = new Set<bigint>();
  tooLong = false;
  differences = 0;
  persistent: string[] = [];
  failing: ((q: any) => [number, string] | null) | null = null;
  timeoutOfChannels: number | undefined = undefined;

  opt: AppOptions;
  constructor(ctl: Ctl, opt: AppOptions = {}) {
    this.ctl = ctl;
    this.opt = opt;
    this.app = new App(ctl, opt);
    this.app.onRequest = (r) => this.#request(r);
  }
  /** The process ends here and now; what it was doing is never finished. */
  kill() {
    const old = this.app;
    old.onRequest = () => null;
    for (const l of old.net.links) l.open = false;
    W.timers.clear();
    this.queue = [];
    this.slowHandlers = null;
    this.app = new App(this.ctl, this.opt);
    this.app.onRequest = (r) => this.#request(r);
  }
  /** What a handler does: throw to fail. */
  handling: ((key: string) => void | Promise<void>) | null = null;
  use(client = this.app.client) {
    const app = this.app;
    client.use(async (ctx: any, next: any) => {
      if (this.app !== app) await new Promise<never>(() => {});
      const u = ctx.update?.update ?? ctx.update;
      if (this.handling && u?._) {
        const key = Account.keyOf(u);
        if (key !== null) await this.handling(key);
        if (this.app !== app) await new Promise<never>(() => {});
      }
      if (u?._) this.observe(u);
      const m = ctx.update?.type === "message" ? ctx.update.message : null;
      if (m) {
        // the message as applications see it, after the update it is made of
        const key = m.chat.id > -1000000000000 ? `msg ${m.id}` : `chmsg ${-1000000000000n - BigInt(m.chat.id)} ${m.id}`;
        if (this.handling) await this.handling(`shown ${key}`);
        if (this.app !== app) await new Promise<never>(() => {});
        this.shown.push(`${key} ${m.text} ${m.date} ${m.from?.id}`);
      }
      if (this.slowHandlers) await new Promise<void>((resolve) => this.slowHandlers!.push(resolve));
      await next();
    });
  }
  observe(u: any) {
    const key = Account.keyOf(u);
    if (key === null) return;
    this.delivered.push({ key, update: u });
    this.ctl.note(`delivered ${key}`);
  }
  static keyOf(u: any): string | null {
    switch (u._) {
      case "updateNewMessage":
        return `msg ${u.message.id}`;
      case "updateDeleteMessages":
        return `del ${u.messages[0]}`;
      case "updateReadHistoryInbox":
        return `read ${u.max_id}`;
      case "updateNewEncryptedMessage":
        return `qmsg ${u.message.random_id}`;
      case "updateBotStopped":
        return `qbot ${u.date}`;
      case "updateServiceNotification":
        return `plain ${u.type}`;
      case "updateNewChannelMessage":
        return `chmsg ${u.message.peer_id.channel_id} ${u.message.id}`;
      case "updateDeleteChannelMessages":
        return `chdel ${u.channel_id} ${u.messages[0]}`;
      case "updateReadChannelInbox":
        return `chread ${u.channel_id} ${u.max_id}`;
    }
    return null;
  }
  event(kind: Kind, ch = CH): Event {
    if (kind === "chmsg2") [kind, ch] = ["chmsg", CH + 1n];
    if (kind === "chdel2") [kind, ch] = ["chdel", CH + 1n];
    const n = ++this.#n;
    const e: Event = { key: "", box: "pts", pts: 0, count: 1, update: null, lost: false, repeat: false };
    switch (kind) {
      case "msg":
      case "short":
      case "shortmsg":
      case "combined":
      case "far": {
        e.pts = ++this.pts;
        const from = kind === "far" ? 90n + BigInt(n) : 9n;
        e.message = { _: "message", id: n, peer_id: { _: "peerUser", user_id: from }, from_id: { _: "peerUser", user_id: from }, date: date(), message: `m${n}` };
        e.update = { _: "updateNewMessage", message: e.message, pts: e.pts, pts_count: 1 };
        break;
      }
      case "del":
        e.count = 2;
        e.pts = this.pts += 2;
        e.update = { _: "updateDeleteMessages", messages: [n, n + 1000], pts: e.pts, pts_count: 2 };
        break;
      case "read":
        e.pts = ++this.pts;
        e.update = { _: "updateReadHistoryInbox", peer: { _: "peerUser", user_id: 9n }, max_id: n, still_unread_count: 0, pts: e.pts, pts_count: 1 };
        break;
      case "qmsg":
        e.box = "qts";
        e.pts = ++this.qts;
        e.encrypted = { _: "encryptedMessage", random_id: BigInt(n), chat_id: 1, date: date(), bytes: new Uint8Array(4), file: { _: "encryptedFileEmpty" } };
        e.update = { _: "updateNewEncryptedMessage", message: e.encrypted, qts: e.pts };
        break;
      case "qbot":
        e.box = "qts";
        e.pts = ++this.qts;
        e.update = { _: "updateBotStopped", user_id: 9n, date: n, stopped: true, qts: e.pts };
        break;
      case "plain":
        e.box = "none";
        e.update = { _: "updateServiceNotification", type: String(n), message: "x", media: { _: "messageMediaEmpty" }, entities: [] };
        break;
      case "chmsg":
      case "chdel":
        e.box = ch;
        e.count = kind === "chdel" ? 2 : 1;
        e.pts = (this.channelPts.get(ch) ?? 10) + e.count;
        this.channelPts.set(ch, e.pts);
        if (kind === "chmsg") {
          e.message = { _: "message", id: n, peer_id: { _: "peerChannel", channel_id: ch }, from_id: { _: "peerUser", user_id: 9n }, date: date(), message: `m${n}` };
          e.update = { _: "updateNewChannelMessage", message: e.message, pts: e.pts, pts_count: 1 };
        } else e.update = { _: "updateDeleteChannelMessages", channel_id: ch, messages: [n, n + 1000], pts: e.pts, pts_count: 2 };
        break;
      default:
        throw new Error(kind);
    }
    e.key = Account.keyOf(e.update)!;
    this.events.push(e);
    return e;
  }
  /** How the server announces events: consecutive events in one container. */
  announce(kind: Kind, events: Event[], withSeq = true) {
    const users = [user(9n)];
    const chats = events.some((e) => typeof e.box === "bigint") ? [...new Set(events.map((e) => e.box).filter((b) => typeof b === "bigint"))].map((b) => channel(b as bigint)) : [];
    // containers with updates of channels only are not numbered; what is lost with those
    // that are is told by the difference
    if (events.every((e) => typeof e.box === "bigint")) withSeq = false;
    if (withSeq) for (const e of events) if (typeof e.box === "bigint") this.news.add(e.box);
    let body: any;
    if (kind === "short") body = { _: "updateShort", update: events[0].update, date: date() };
    else if (kind === "shortmsg") {
      const e = events[0];
      body = { _: "updateShortMessage", id: e.message.id, user_id: 9n, message: e.message.message, pts: e.pts, pts_count: 1, date: e.message.date };
    } else if (kind === "combined") {
      const start = this.seq + 1;
      this.seq += 2;
      body = { _: "updatesCombined", updates: events.map((e) => e.update), users, chats, date: date(), seq_start: start, seq: this.seq };
    } else body = { _: "updates", updates: events.map((e) => e.update), users, chats, date: date(), seq: withSeq ? ++this.seq : 0 };
    this.queue.push({ kind: "push", label: `push ${kind} ${events.map((e) => `${e.key}@${e.pts}`).join("+")}${body.seq ? ` seq=${body.seq}` : ""}`, body });
  }
  state(pts = this.pts, qts = this.qts) {
    return { _: "updates.state", pts, qts, date: date(), seq: this.seq, unread_count: 0 };
  }
  difference(q: any, slice: boolean): any {
    let ev = this.events.filter((e) => e.box === "pts" && e.pts > q.pts || e.box === "qts" && e.pts > q.qts);
    const news = [...this.channelPts].filter(([id]) => this.channelsInDifference || this.news.has(id));
    if (!ev.length && !news.length) return { _: "updates.differenceEmpty", date: date(), seq: this.seq };
    const full = !slice || ev.length < 2;
    if (!full) ev = ev.slice(0, Math.floor(ev.length / 2));
    const fin = { pts: Math.max(q.pts, ...ev.filter((e) => e.box === "pts").map((e) => e.pts)), qts: Math.max(q.qts, ...ev.filter((e) => e.box === "qts").map((e) => e.pts)) };
    const d = {
      new_messages: ev.filter((e) => e.message).map((e) => e.message),
      new_encrypted_messages: ev.filter((e) => e.encrypted).map((e) => e.encrypted),
      other_updates: ev.filter((e) => !e.message && !e.encrypted).map((e) => e.update).concat(full ? news.map(([id, pts]) => ({ _: "updateChannelTooLong", channel_id: id, pts })) : []),
      chats: news.map(([id]) => channel(id)),
      users: [...new Set(ev.filter((e) => e.message).map((e) => e.message.from_id.user_id))].map((id) => user(id)),
    };
    if (full) return { _: "updates.difference", ...d, state: this.state() };
    return { _: "updates.differenceSlice", ...d, intermediate_state: { ...this.state(fin.pts, fin.qts) } };
  }
  channelDifference(q: any, slice: boolean, tooLong: boolean): any {
    const id = q.channel.channel_id;
    const now = this.channelPts.get(id) ?? 10;
    let ev = this.events.filter((e) => e.box === id && e.pts > q.pts);
    const timeout = this.timeoutOfChannels;
    if (tooLong || q.pts < 10) {
      for (const e of ev) e.lost = true;
      const last = this.events.filter((e) => e.box === id && e.message).slice(-1);
      for (const e of last) e.repeat = true;
      return {
        _: "updates.channelDifferenceTooLong",
        final: true,
        timeout,
        dialog: { _: "dialog", peer: { _: "peerChannel", channel_id: id }, top_message: 1, read_inbox_max_id: 0, read_outbox_max_id: 0, unread_count: 0, unread_mentions_count: 0, unread_reactions_count: 0, unread_poll_votes_count: 0, notify_settings: { _: "peerNotifySettings" }, pts: now },
        messages: last.map((e) => e.message),
        chats: [channel(id)],
        users: [user(9n)],
      };
    }
    if (!ev.length) return { _: "updates.channelDifferenceEmpty", final: true, pts: now, timeout };
    const full = !slice || ev.length < 2;
    if (!full) ev = ev.slice(0, Math.floor(ev.length / 2));
    return { _: "updates.channelDifference", final: full ? true : undefined, pts: full ? now : ev[ev.length - 1].pts, timeout, new_messages: ev.filter((e) => e.message).map((e) => e.message), other_updates: ev.filter((e) => !e.message).map((e) => e.update), chats: [channel(id)], users: [user(9n)] };
  }
  #request(r: Request): any {
    const q = r.q;
    const f = this.failing?.(q);
    if (f) {
      this.queue.push({ kind: "answer", label: `error for ${q._}`, request: r, answer: { error: f } });
      return null;
    }
    switch (q._) {
      case "updates.getState":
        if (this.auto) return { result: this.state() };
        // asked for because of updatePtsChanged: what is not known until it has been dealt with
        // is skipped
        this.#resetting = true;
        for (const e of this.events) if (typeof e.box !== "bigint") e.lost = true;
        this.queue.push({ kind: "answer", label: "state", request: r, answer: { result: this.state() } });
        return null;
      case "updates.getDifference": {
        this.differences++;
        check(this.differences < 60, "the client asks for differences without end");
        check(q.pts <= this.pts && (q.qts ?? 0) <= this.qts, () => `the client asks for the difference from pts=${q.pts} qts=${q.qts}, which has not happened yet`, "difference from the future");
        const ev = this.events.filter((e) => e.box === "pts" && e.pts > q.pts || e.box === "qts" && e.pts > q.qts);
        if (this.#resetting) {
          this.#resetting = false;
          for (const e of this.events) if (typeof e.box !== "bigint") e.lost = true;
        }
        let mode = 0;
        if (!this.auto && ev.length > 1 && this.slices) mode = this.ctl.choose(2, "slice");
        if (!this.auto && ev.length && this.tooLong && mode === 0 && this.ctl.choose(2, "too long")) {
          for (const e of ev) if (e.box === "pts") e.lost = true;
          this.queue.push({ kind: "answer", label: `difference too long (${this.pts})`, request: r, answer: { result: { _: "updates.differenceTooLong", pts: this.pts } } });
          return null;
        }
        const result = this.difference(q, mode === 1);
        if (this.auto) return { result };
        this.queue.push({ kind: "answer", label: `${result._} from ${q.pts}/${q.qts} to ${this.pts}/${this.qts}`, request: r, answer: { result } });
        return null;
      }
      case "updates.getChannelDifference": {
        this.differences++;
        check(this.differences < 60, "the client asks for differences without end");
        const id = q.channel.channel_id;
        check(q.channel.access_hash === id * 1000n + 2n, "the channel's access hash is wrong");
        check(q.pts <= (this.channelPts.get(id) ?? 10), "the client asks for a channel difference from the future");
        const ev = this.events.filter((e) => e.box === id && e.pts > q.pts);
        let slice = false, tooLong = false;
        if (!this.auto && ev.length > 1 && this.slices) slice = this.ctl.choose(2, "slice") === 1;
        if (!this.auto && ev.length && this.tooLong && !slice) tooLong = this.ctl.choose(2, "too long") === 1;
        const result = this.channelDifference(q, slice, tooLong);
        if (this.auto) return { result };
        this.queue.push({ kind: "answer", label: `${result._} from ${q.pts}`, request: r, answer: { result } });
        return null;
      }
    }
    return undefined;
  }
  deliver(i: number, keep = false) {
    const item = this.queue[i];
    if (!keep) this.queue.splice(i, 1);
    else item.duplicate = true;
    this.ctl.step(`${keep ? "deliver (and keep)" : "deliver"} ${item.label}`);
    if (item.kind === "push") this.app.push(item.body);
    else this.app.answer(item.request!, item.answer);
  }
  lose(i: number) {
    const item = this.queue[i];
    this.queue.splice(i, 1);
    this.ctl.step(`lose ${item.label}`);
  }
  /** The connection breaks and is opened again. */
  async drop() {
    this.ctl.step("connection lost");
    const l = this.app.main()!;
    this.queue = [];
    l.conn.drop(l);
    await settle();
    for (let i = 0; i < 20 && !this.app.main(); i++) {
      const t = timers()[0];
      if (!t) fail("the client does not reconnect");
      await advance(t.at - W.now);
    }
    if (!this.app.main()) fail("the client does not reconnect");
    await settle();
  }
  /** Compare what was delivered with what happened. */
  verify(o: { ordered?: boolean; skipBefore?: number } = {}) {
    this.app.checkUnhandled();
    const counts = new Map<string, number>();
    for (const d of this.delivered) counts.set(d.key, (counts.get(d.key) ?? 0) + 1);
    for (const e of this.events) {
      const n = counts.get(e.key) ?? 0;
      if (e.box === "none") {
        check(n <= 1, () => `${e.key} was delivered ${n} times`, "an update outside the boxes was delivered more than once");
        continue;
      }
      check(n > 0 || e.lost, () => `${e.key} (pts ${e.pts}) was never delivered`, "an update was never delivered");
      check(n <= 1 || e.repeat, () => `${e.key} (pts ${e.pts}) was delivered ${n} times`, "an update was delivered more than once");
    }
    for (const d of this.delivered) check(this.events.some((e) => e.key === d.key), () => `${d.key} was delivered but never happened`, "an update was invented");
    if (o.ordered !== false) {
      // messages among themselves and other updates among themselves, per box
      const last = new Map<string, number>();
      for (const d of this.delivered) {
        const e = this.events.find((e) => e.key === d.key)!;
        if (e.box === "none" || e.repeat) continue;
        const k = `${e.box} ${e.message || e.encrypted ? "message" : "other"}`;
        check(e.pts > (last.get(k) ?? 0), () => `${e.key} (pts ${e.pts}) was delivered after pts ${last.get(k)}`, "updates were delivered out of order");
        last.set(k, e.pts);
      }
    }
    const told: string[] = [];
    for (const d of this.delivered) {
      const e = this.events.find((e) => e.key === d.key)!;
      if (e.message) told.push(`${e.key} ${e.message.message} ${e.message.date} ${e.message.from_id.user_id}`);
      if (e.message) check(d.update.message.message === e.message.message && d.update.message.date === e.message.date, "a message was delivered with other contents");
    }
    const box = (l: string[]) => l.toSorted().join("\n");
    check(this.app.client === null || box(told) === box(this.shown), () => `the application was shown the messages\n    ${this.shown.join("\n    ")}\n  instead of\n    ${told.join("\n    ")}`, "a message was not shown as such");
  }
}
void turn;
void selfUser;
