// A complete real Client against a model Telegram server, with the explorer deciding
// what the network and the server do.
// deno-lint-ignore-file no-explicit-any
import { settle, W } from "./world.ts";
import { ConnClosed, type FakeConnection, ID, type InMsg, type Link, MtServer, Net, pong, rpcError, rpcResult, testKey } from "./mt.ts";
import { apiCodec, unwrap } from "./rpc.ts";
import { Bytes, Rd } from "./tl.ts";
import { type Ctl, fail } from "./explore.ts";
import { Client } from "/repo/client/6_client.ts";
import { StorageMemory } from "/repo/storage/2_storage_memory.ts";
void ConnClosed;

export const SELF = 777n;
export const user = (id: bigint, extra: any = {}) => ({ _: "user", id, access_hash: id * 1000n + 1n, first_name: `u${id}`, ...extra });
export const selfUser = () => ({ ...user(SELF), self: true });
export const channel = (id: bigint, extra: any = {}) => ({ _: "channel", id, access_hash: id * 1000n + 2n, title: `c${id}`, photo: { _: "chatPhotoEmpty" }, date: 1, megagroup: true, ...extra });
export const group = (id: bigint, extra: any = {}) => ({ _: "chat", id, title: `g${id}`, photo: { _: "chatPhotoEmpty" }, participants_count: 2, date: 1, version: 1, ...extra });

export function encodeResult(v: any): Uint8Array {
  if (v instanceof Uint8Array) return v;
  if (Array.isArray(v)) {
    const w = new Bytes().u32(ID.vector).u32(v.length);
    for (const x of v) {
      if (typeof x === "bigint") w.i64(x);
      else if (typeof x === "number") w.u32(x);
      else w.raw(apiCodec.encode(x));
    }
    return w.done();
  }
  if (v === true) return new Bytes().u32(0x997275b5).done();
  if (v === false) return new Bytes().u32(0xbc799737).done();
  return apiCodec.encode(v);
}

export interface Request {
  q: any;
  m: InMsg;
  link: Link;
  dc: string;
  media: boolean;
  wrapped: ReturnType<typeof unwrap>;
}
/** What a handler of requests may return: the answer, an error, or null to answer later. */
export type Answer = { result: any } | { error: [number, string] } | null;

export interface AppOptions {
  params?: any;
  isBot?: boolean;
  /** keys already known for other data centers or media connections */
  authorized?: boolean;
}

export class App {
  net = new Net();
  /** by key identifier */
  server = new MtServer(testKey());
  client: any;
  ctl: Ctl;
  opt: AppOptions;
  requests: Request[] = [];
  /** Requests the handler left unanswered. */
  held: Request[] = [];
  onRequest: ((r: Request) => Answer | undefined) | null = null;
  startError: unknown = null;
  started = false;

  constructor(ctl: Ctl, opt: AppOptions = {}) {
    this.ctl = ctl;
    this.opt = opt;
    this.server.exactSeq = false;
    this.net.onPacket = (link, b) => this.#packet(link, b);
  }
  create(extra: any = {}) {
    this.client = new Client({
      storage: new StorageMemory(),
      apiId: 5,
      apiHash: "h",
      transportProvider: this.net.provider as any,
      appVersion: "1",
      deviceModel: "d",
      systemVersion: "1",
      ...(this.opt.params ?? {}),
      ...extra,
    });
    return this.client;
  }
  /** Store an authorization as an earlier run would have left it. */
  static authString(o: { dc?: string; isBot?: boolean; userId?: bigint; apiId?: number } = {}): string {
    const w = new Bytes().str(o.dc ?? "2").bytes(testKey()).u32(o.apiId ?? 5).raw(new Uint8Array([o.isBot ? 1 : 0])).i64(o.userId ?? SELF);
    const data = w.done();
    // zero runs are encoded as 0 followed by their length
    const out: number[] = [];
    let n = 0;
    for (const b of data) {
      if (b === 0) n++;
      else {
        if (n) out.push(0, n), n = 0;
        out.push(b);
      }
    }
    if (n) out.push(0, n);
    return btoa(String.fromCharCode(...out)).replace(/=*$/, "").replaceAll("+", "-").replaceAll("/", "_");
  }
  #packet(link: Link, b: Uint8Array) {
    const conn = link.conn as FakeConnection;
    for (const m of this.server.receive(link, b)) {
      if (m.id === ID.ack) continue;
      if (m.id === ID.pingDelay || m.id === ID.ping) {
        this.reply(m, link, pong(m.msgId, new Rd(m.body.subarray(4)).i64()), true);
        continue;
      }
      const wrapped = unwrap(m.body);
      let q = wrapped.query;
      while (q._ === "invokeWithTakeout" || q._ === "invokeWithBusinessConnection" || q._ === "invokeAfterMsg") q = q.query;
      const r: Request = { q, m, link, dc: conn.dc, media: conn.isMedia, wrapped };
      this.requests.push(r);
      let a = this.onRequest?.(r);
      if (a === undefined) a = this.fallback(r);
      if (a === null) {
        this.ctl.note(`server <- ${q._}`);
        this.held.push(r);
      } else if (a === undefined) fail(`the harness has no answer to ${q._}`);
      else this.answer(r, a);
    }
  }
  fallback(r: Request): Answer | undefined {
    switch (r.q._) {
      case "updates.getState":
        return { result: { _: "updates.state", pts: 1, qts: 1, date: 1, seq: 0, unread_count: 0 } };
      case "updates.getDifference":
        return { result: { _: "updates.differenceEmpty", date: 1, seq: 0 } };
      case "users.getUsers":
        return { result: r.q.id.map((x: any) => x._ === "inputUserSelf" ? selfUser() : user(x.user_id)) };
      case "channels.getChannels":
        return { result: { _: "messages.chats", chats: r.q.id.map((x: any) => channel(x.channel_id)) } };
      case "help.getConfig":
        return { error: [500, "NO_CONFIG"] };
    }
    return undefined;
  }
  reply(m: InMsg, link: Link, body: Uint8Array, content = true) {
    // a packet may not be delivered while the client is still sending
    const packet = this.server.seal(m.sessionId, body, { content });
    queueMicrotask(() => link.open && link.conn.deliver(link, packet));
  }
  answer(r: Request, a: Exclude<Answer, null>) {
    this.held = this.held.filter((x) => x !== r);
    if ("error" in a) this.reply(r.m, r.link, rpcResult(r.m.msgId, rpcError(a.error[0], a.error[1])));
    else this.reply(r.m, r.link, rpcResult(r.m.msgId, encodeResult(a.result)));
  }
  /** The connection of the main client. */
  main(): Link | undefined {
    return this.net.links.findLast((l) => l.open && !l.conn.isMedia);
  }
  push(o: any) {
    const l = this.main();
    const session = this.sessionOf(l);
    if (!l || session === undefined) return false;
    l.conn.deliver(l, this.server.seal(session, apiCodec.encode(o)));
    return true;
  }
  sessionOf(l: Link | undefined): bigint | undefined {
    return l && this.requests.findLast((r) => r.link === l)?.m.sessionId;
  }
  async start(restarted = false) {
    if (!restarted) await this.client.importAuthString(App.authString({ isBot: this.opt.isBot }));
    const p = this.client.start({ botToken: "1:a" });
    p.then(() => this.started = true, (e: unknown) => this.startError = e);
    await settle();
    if (this.startError) throw this.startError;
    if (!this.started) fail("start does not complete");
  }
  checkUnhandled() {
    this.net.checkViolation();
    if (W.unhandled.length) {
      const e = W.unhandled[0] as any;
      if (e?.constructor?.name === "Violation") throw e;
      fail("unhandled error: " + String(e?.stack ?? e));
    }
  }
}
