// Several model data centers with their own authorization keys, behind one in-memory
// network. Every packet a client sends is a step the explorer decides about.
// deno-lint-ignore-file no-explicit-any
import { settle, W } from "./world.ts";
import { type FakeConnection, ID, type InMsg, keyId, type Link, MtServer, Net, pong, rpcError, rpcResult, testKey } from "./mt.ts";
import { bindProblem, HsServer, publicKeys } from "./handshake.ts";
import { unwrap } from "./rpc.ts";
import { Bytes, Rd } from "./tl.ts";
import { check, type Ctl, fail } from "./explore.ts";
import { channel, encodeResult, SELF, selfUser, user } from "./client.ts";
import { Disk, ModelStorage } from "./storage.ts";
import { Client } from "/repo/client/6_client.ts";

export interface KeyRec {
  id: bigint;
  /** the data center the key was made with */
  dc: string;
  media: boolean;
  key: Uint8Array;
  server: MtServer;
  user: bigint | null;
  /** the server does not know the key any more */
  gone: boolean;
  /** what initConnection told the server about the client */
  init: any;
  made: "before" | "now";
  /** a temporary key: the permanent key it was bound to, and the time it stops being valid at */
  temporary: boolean;
  bound: KeyRec | null;
  expires: number;
}
export interface CloudRequest {
  q: any;
  m: InMsg;
  link: Link;
  dc: string;
  media: boolean;
  key: KeyRec;
  wrapped: ReturnType<typeof unwrap>;
}
export type CloudAnswer = { result: any } | { error: [number, string] };
export interface Waiting {
  link: Link;
  label: string;
  request: CloudRequest | null;
  go(): void;
}

/** methods that may be called without being signed in */
const OPEN = new Set(["auth.sendCode", "auth.signIn", "auth.signUp", "auth.importBotAuthorization", "auth.importAuthorization", "account.getPassword", "auth.checkPassword", "help.getConfig", "help.getNearestDc"]);

export class Cloud {
  net = new Net();
  keys: KeyRec[] = [];
  /** packets that arrived and have not been acted on */
  waiting: Waiting[] = [];
  requests: CloudRequest[] = [];
  #hs = new Map<string, HsServer>();
  #exports = new Map<string, { dc: string; user: bigint }>();
  #exported = 0;
  /** answers to what the data centers themselves do not handle */
  onRequest: ((r: CloudRequest) => CloudAnswer | undefined) | null = null;
  /** key identifiers seen by data centers */
  handshakes: string[] = [];
  #hsCount = new Map<Link, number>();

  /** clients are expected to use temporary keys only */
  pfs = false;
  /** the client did not run for a while, and might not know that its keys have expired */
  suspended = false;
  onBound: ((k: KeyRec) => void) | null = null;

  constructor(public ctl: Ctl) {
    let x = 12345;
    W.randomHook = (u) => {
      for (let i = 0; i < u.length; i++) x = (Math.imul(x, 1103515245) + 12345) >>> 0, u[i] = x >>> 16;
      if (u.length === 256) u.fill(0, 4); // an exponent of 32 bits
    };
    this.net.onPacket = (link, b) => this.#packet(link, b);
  }
  addKey(dc: string, key: Uint8Array, o: Partial<KeyRec> = {}): KeyRec {
    const server = new MtServer(key);
    server.exactSeq = false;
    const rec: KeyRec = { id: keyId(key), dc, media: false, key, server, user: null, gone: false, init: null, made: "now", temporary: false, bound: null, expires: Infinity, ...o };
    if (rec.temporary) {
      // who is signed in is known of the permanent key
      Object.defineProperty(rec, "user", { get: () => rec.bound?.user ?? null, set: (v) => rec.bound && (rec.bound.user = v) });
    }
    this.keys.push(rec);
    return rec;
  }
  /** The key an authorization string carries. */
  homeKey(dc: string, user: bigint | null = SELF) {
    return this.addKey(dc, testKey(), { user, made: "before" });
  }
  #hsFor(conn: FakeConnection) {
    const name = `${conn.dc}${conn.isMedia ? "_media" : ""}`;
    let h = this.#hs.get(name);
    if (!h) {
      const dcId = (parseInt(conn.dc[0]) + (conn.dc.endsWith("-test") ? 10_000 : 0)) * (conn.isMedia ? -1 : 1);
      h = new HsServer({ dcId, temporary: this.pfs ? null : false, p: 3n, q: 5n, a: 5003n + BigInt(this.#hs.size), g: 3 });
      this.#hs.set(name, h);
    }
    return h;
  }
  #wait(w: Waiting) {
    this.waiting.push(w);
  }
  done(w: Waiting) {
    this.waiting = this.waiting.filter((x) => x !== w);
  }
  #packet(link: Link, b: Uint8Array) {
    const conn = link.conn as FakeConnection;
    const id = new Rd(b).i64();
    if (id === 0n) {
      const h = this.#hsFor(conn);
      const n = this.#hsCount.get(link) ?? 0;
      this.#hsCount.set(link, n + 1);
      const w: Waiting = {
        link,
        label: `handshake ${n + 1} with ${conn.dc}${conn.isMedia ? " media" : ""}`,
        request: null,
        go: () => {
          this.done(w);
          if (!link.open) return;
          const had = h.keys.length;
          h.receive(link, b);
          for (const k of h.keys.slice(had)) {
            const rec = this.addKey(conn.dc, k.key, { media: conn.isMedia, temporary: k.temporary, expires: k.temporary ? W.now + 86_400_000 : Infinity });
            rec.server.salt = k.salt;
            if (!k.temporary) this.handshakes.push(w.label);
          }
        },
      };
      return this.#wait(w);
    }
    const key = this.keys.find((k) => k.id === id && k.dc === conn.dc && !k.gone);
    if (!key) {
      const other = this.keys.find((k) => k.id === id);
      if (other && other.dc !== conn.dc) fail(`a key of data center ${other.dc} is used at ${conn.dc}`, "a key is used at another data center");
      if (!other) fail("a packet is encrypted with a key nobody agreed on");
      this.ctl.note(`${conn.dc} does not know the key`);
      queueMicrotask(() => link.open && link.conn.deliver(link, new Bytes().u32(-404 >>> 0).done()));
      return;
    }
    if (this.pfs) {
      check(key.temporary, "a packet is encrypted with the permanent key");
      if (key.expires <= W.now) {
        if (!this.suspended) fail(`a key is used ${(W.now - key.expires) / 1000} s after it expired`, "a key is used after it expired");
        key.gone = true;
        queueMicrotask(() => link.open && link.conn.deliver(link, new Bytes().u32(-404 >>> 0).done()));
        return;
      }
    }
    const ms = key.server.receive(link, b);
    for (const m of ms) {
      if (m.id === ID.ack) continue;
      if (m.id === ID.pingDelay || m.id === ID.ping) {
        this.reply(key, m, link, pong(m.msgId, new Rd(m.body.subarray(4)).i64()));
        continue;
      }
      const wrapped = unwrap(m.body);
      let q = wrapped.query;
      while (q._ === "invokeWithTakeout" || q._ === "invokeWithBusinessConnection" || q._ === "invokeAfterMsg") q = q.query;
      const r: CloudRequest = { q, m, link, dc: conn.dc, media: conn.isMedia, key, wrapped };
      if (this.pfs && q._ !== "auth.bindTempAuthKey" && !key.bound) fail(`${q._} is sent under a temporary key that is not bound`, "a request is sent under a temporary key that is not bound");
      this.requests.push(r);
      const w: Waiting = {
        link,
        label: `${q._}${q.path !== undefined ? " " + q.path : ""} at ${conn.dc}${conn.isMedia ? " media" : ""}`,
        request: r,
        go: () => {
          this.done(w);
          this.answer(r, this.handle(r));
        },
      };
      this.#wait(w);
    }
  }
  #bind(r: CloudRequest): CloudAnswer {
    const { q, key } = r;
    const perm = this.keys.find((k) => !k.temporary && k.id === q.perm_auth_key_id && k.dc === r.dc);
    check(perm, "a temporary key is bound to a key its data center does not know");
    check(key.temporary && !key.bound, "a key is bound twice");
    const why = bindProblem(perm!.key, q, key.id, r.m);
    if (why) fail(`the binding message is invalid: ${why}`, `invalid binding: ${why}`);
    key.bound = perm!;
    key.expires = Math.min(key.expires, q.expires_at * 1000);
    this.onBound?.(key);
    return { result: new Bytes().u32(0x997275b5).done() };
  }
  handle(r: CloudRequest): CloudAnswer {
    const q = r.q;
    if (q._ === "auth.bindTempAuthKey") return this.#bind(r);
    if (r.wrapped.init) {
      check(r.wrapped.layer !== null, "initConnection without a layer");
      r.key.init = { ...r.wrapped.init, query: null, layer: r.wrapped.layer };
    } else if (!r.key.init) return { error: [400, "CONNECTION_NOT_INITED"] };
    if (r.key.user === null && !OPEN.has(q._)) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
    if (q._ === "auth.exportAuthorization") {
      if (String(q.dc_id) === r.dc[0]) return { error: [400, "DC_ID_INVALID"] };
      const bytes = new Bytes().u32(this.#exported++).u32(q.dc_id).done();
      const dc = `${q.dc_id}${r.dc.slice(1)}`;
      this.#exports.set(bytes.join(), { dc, user: r.key.user! });
      return { result: { _: "auth.exportedAuthorization", id: BigInt(this.#exported), bytes } };
    }
    if (q._ === "auth.importAuthorization") {
      const e = this.#exports.get(q.bytes.join());
      if (!e || e.dc !== r.dc || q.id !== BigInt(new Rd(q.bytes).u32() + 1)) return { error: [400, "AUTH_BYTES_INVALID"] };
      this.#exports.delete(q.bytes.join());
      r.key.user = e.user;
      return { result: { _: "auth.authorization", user: selfUser() } };
    }
    const a = this.onRequest?.(r) ?? this.fallback(r);
    if (a === undefined) fail(`the harness has no answer to ${q._}`);
    return a;
  }
  fallback(r: CloudRequest): CloudAnswer | undefined {
    switch (r.q._) {
      case "updates.getState":
        return { result: { _: "updates.state", pts: 1, qts: 1, date: 1, seq: 0, unread_count: 0 } };
      case "updates.getDifference":
        return { result: { _: "updates.differenceEmpty", date: 1, seq: 0 } };
      case "users.getUsers":
        return { result: r.q.id.map((x: any) => x._ === "inputUserSelf" ? { ...user(r.key.user!), self: true } : user(x.user_id)) };
      case "channels.getChannels":
        return { result: { _: "messages.chats", chats: r.q.id.map((x: any) => channel(x.channel_id)) } };
    }
    return undefined;
  }
  reply(key: KeyRec, m: InMsg, link: Link, body: Uint8Array) {
    const packet = key.server.seal(m.sessionId, body);
    queueMicrotask(() => link.open && link.conn.deliver(link, packet));
  }
  answer(r: CloudRequest, a: CloudAnswer) {
    if ("error" in a) this.reply(r.key, r.m, r.link, rpcResult(r.m.msgId, rpcError(a.error[0], a.error[1])));
    else this.reply(r.key, r.m, r.link, rpcResult(r.m.msgId, encodeResult(a.result)));
  }
  create(storage: any, extra: any = {}) {
    return new Client({
      storage,
      apiId: 5,
      apiHash: "h",
      transportProvider: this.net.provider as any,
      appVersion: "1",
      deviceModel: "d",
      systemVersion: "1",
      publicKeys,
      ...extra,
    }) as any;
  }
  /** Act on everything as it comes. */
  async drain(limit = 400) {
    await settle();
    for (let i = 0; this.waiting.length; i++) {
      if (i > limit) fail("requests are made without end", "requests are made without end");
      this.waiting[0].go();
      await settle();
    }
  }
  get live() {
    return this.net.live;
  }
  ok() {
    this.net.checkViolation();
    if (W.unhandled.length) {
      const e = W.unhandled[0] as any;
      if (e?.constructor?.name === "Violation") throw e;
      fail("unhandled error: " + String(e?.stack ?? e), "unhandled error: " + String(e?.message ?? e));
    }
  }
}
export { Disk, ModelStorage };
