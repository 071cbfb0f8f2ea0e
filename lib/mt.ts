// A model MTProto server and an in-memory network under the explorer's control.
// deno-lint-ignore-file no-explicit-any
import "./world.ts";
import { W } from "./world.ts";
import { createHash } from "node:crypto";
import { gunzipSync, gzipSync } from "node:zlib";
import { ige256Decrypt, ige256Encrypt } from "/opt/mtkruto-deps/tgcrypto/mod.ts";
import { Bytes, Rd } from "./tl.ts";
import { check, fail } from "./explore.ts";

export const sha1 = (...b: Uint8Array[]) => {
  const h = createHash("sha1");
  for (const x of b) h.update(x);
  return new Uint8Array(h.digest());
};
export const sha256 = (...b: Uint8Array[]) => {
  const h = createHash("sha256");
  for (const x of b) h.update(x);
  return new Uint8Array(h.digest());
};
export const cat = (...b: Uint8Array[]) => {
  const w = new Bytes();
  for (const x of b) w.raw(x);
  return w.done();
};
export const igeEnc = (d: Uint8Array, k: Uint8Array, iv: Uint8Array) => ige256Encrypt(d, k, iv);
export const igeDec = (d: Uint8Array, k: Uint8Array, iv: Uint8Array) => ige256Decrypt(d, k, iv);

export function testKey(n = 1): Uint8Array<ArrayBuffer> {
  const k = new Uint8Array(256);
  for (let i = 0; i < 256; i++) k[i] = (i * 7 + n * 31 + (i >> 3)) & 255;
  return k;
}

// ---------------------------------------------------------------- network

export interface Link {
  id: number;
  conn: FakeConnection;
  open: boolean;
  /** packets towards the client, in order */
  toClient: Uint8Array[];
  /** packets from the client */
  fromClient: Uint8Array[];
  /** how many bytes the client has taken */
  read: number;
}
export interface PendingOpen {
  conn: FakeConnection;
  accept(): Link;
  refuse(): void;
}
export interface PendingSend {
  link: Link;
  complete(): void;
}

export class ConnClosed extends Error {}

export class FakeConnection {
  net: Net;
  dc: string;
  isMedia: boolean;
  link: Link | null = null;
  stateChangeHandler?: (c: boolean) => void;
  callback?: { read(n: number): void; write(n: number): void };
  #readers: { resolve: (b: Uint8Array) => void; reject: (e: unknown) => void; link: Link }[] = [];
  constructor(net: Net, dc: string, isMedia: boolean) {
    this.net = net;
    this.dc = dc;
    this.isMedia = isMedia;
  }
  get isConnected() {
    return this.link !== null && this.link.open;
  }
  open(): Promise<void> {
    if (this.isConnected) return Promise.resolve();
    this.net.opens++;
    const p = Promise.withResolvers<void>();
    const po: PendingOpen = {
      conn: this,
      accept: () => {
        this.net.pendingOpens = this.net.pendingOpens.filter((x) => x !== po);
        const link: Link = { id: this.net.links.length, conn: this, open: true, toClient: [], fromClient: [], read: 0 };
        this.net.links.push(link);
        this.link = link;
        this.net.onLink?.(link);
        this.stateChangeHandler?.(true);
        p.resolve();
        return link;
      },
      refuse: () => {
        this.net.pendingOpens = this.net.pendingOpens.filter((x) => x !== po);
        p.reject(new ConnClosed("refused"));
      },
    };
    this.net.pendingOpens.push(po);
    if (this.net.autoOpen) po.accept();
    return p.promise;
  }
  close() {
    const link = this.link;
    if (!link || !link.open) throw new ConnClosed("The connection is not open.");
    link.open = false;
    this.link = null;
    this.net.onClientClose?.(link);
    this.failReaders(link);
  }
  failReaders(link: Link) {
    const mine = this.#readers.filter((r) => r.link === link);
    this.#readers = this.#readers.filter((r) => r.link !== link);
    for (const r of mine) {
      r.reject(new ConnClosed("The connection was closed."));
    }
    if (mine.length) this.stateChangeHandler?.(false);
  }
  /** the network loses this connection */
  drop(link: Link) {
    if (!link.open) return;
    link.open = false;
    const had = this.#readers.some((r) => r.link === link);
    this.failReaders(link);
    if (!had) this.stateChangeHandler?.(false);
  }
  read(_p: Uint8Array): void {
    throw new Error("unused");
  }
  write(_p: Uint8Array): void {
    throw new Error("unused");
  }
  // transport side
  async send(b: Uint8Array) {
    const link = this.link;
    if (!link || !link.open) throw new ConnClosed("The connection is not open.");
    link.fromClient.push(b.slice());
    this.callback?.write(b.length);
    try {
      this.net.onPacket?.(link, b.slice());
    } catch (err) {
      this.net.violation ??= err;
    }
    if (this.net.holdSends) {
      await new Promise<void>((resolve, reject) => {
        const ps: PendingSend = {
          link,
          complete: () => {
            this.net.pendingSends = this.net.pendingSends.filter((x) => x !== ps);
            if (link.open || this.net.sendsSurviveClose) resolve();
            else reject(new ConnClosed("The connection was closed."));
          },
        };
        this.net.pendingSends.push(ps);
      });
    }
  }
  async receive(): Promise<Uint8Array> {
    const link = this.link;
    if (!link || !link.open) throw new ConnClosed("The connection is not open.");
    if (link.toClient.length) {
      const b = link.toClient.shift()!;
      link.read += b.length;
      this.callback?.read(b.length);
      return b;
    }
    return await new Promise((resolve, reject) => this.#readers.push({ resolve, reject, link }));
  }
  deliver(link: Link, b: Uint8Array) {
    if (!link.open) return;
    const i = this.#readers.findIndex((r) => r.link === link);
    if (i >= 0) {
      const [r] = this.#readers.splice(i, 1);
      link.read += b.length;
      this.callback?.read(b.length);
      r.resolve(b);
    } else link.toClient.push(b);
  }
}

export class Net {
  links: Link[] = [];
  pendingOpens: PendingOpen[] = [];
  pendingSends: PendingSend[] = [];
  autoOpen = true;
  holdSends = false;
  sendsSurviveClose = false;
  opens = 0;
  conns: FakeConnection[] = [];
  onPacket?: (link: Link, b: Uint8Array) => void;
  /** the first thing a server found wrong with what the client sent */
  violation: unknown = null;
  onLink?: (link: Link) => void;
  onClientClose?: (link: Link) => void;
  provider = ({ dc, isMedia }: { dc: string; isMedia: boolean }) => {
    const c = new FakeConnection(this, dc, isMedia);
    this.conns.push(c);
    const transport = { initialize: async () => {}, receive: () => c.receive(), send: (b: Uint8Array) => c.send(b) };
    const dcId = (parseInt(dc[0]) + (dc.endsWith("-test") ? 10_000 : 0)) * (isMedia ? -1 : 1);
    return { connection: c as any, transport: transport as any, dcId };
  };
  checkViolation() {
    if (this.violation) throw this.violation;
  }
  get live(): Link[] {
    return this.links.filter((l) => l.open);
  }
}

// ---------------------------------------------------------------- crypto envelope

export function envelopeKeys(key: Uint8Array, msgKey: Uint8Array, x: number) {
  const a = sha256(msgKey, key.subarray(x, x + 36));
  const b = sha256(key.subarray(40 + x, 76 + x), msgKey);
  return {
    aesKey: cat(a.subarray(0, 8), b.subarray(8, 24), a.subarray(24, 32)),
    aesIv: cat(b.subarray(0, 8), a.subarray(8, 24), b.subarray(24, 32)),
  };
}
export function keyId(key: Uint8Array): bigint {
  return new Rd(sha1(key).subarray(12, 20)).i64();
}

export interface InMsg {
  link: Link;
  sessionId: bigint;
  salt: bigint;
  msgId: bigint;
  seqno: number;
  container: bigint | null;
  raw: Uint8Array;
  body: Uint8Array;
  gz: boolean;
  id: number;
  at: number;
}

export function openEnvelope(key: Uint8Array, p: Uint8Array): { salt: bigint; session: bigint; inner: Uint8Array; padding: number } {
  const r = new Rd(p);
  const kid = r.i64();
  check(kid === keyId(key), "a packet carries the wrong key identifier");
  const msgKey = r.raw(16);
  const data = r.raw(r.left);
  check(data.length % 16 === 0 && data.length > 0, "encrypted data is not a whole number of blocks");
  const { aesKey, aesIv } = envelopeKeys(key, msgKey, 0);
  const plain = igeDec(data, aesKey, aesIv);
  const mk = sha256(key.subarray(88, 120), plain).subarray(8, 24);
  check(mk.every((v, i) => v === msgKey[i]), "a packet carries a wrong message key");
  const q = new Rd(plain);
  const salt = q.i64();
  const session = q.i64();
  const inner = q.raw(q.left);
  const len = new Rd(inner.subarray(12, 16)).u32();
  const padding = inner.length - 16 - len;
  check(padding >= 12 && padding <= 1024, () => `padding of ${padding} bytes`);
  check(len % 4 === 0, "message length is not divisible by 4");
  return { salt, session, inner, padding };
}
export function sealEnvelope(key: Uint8Array, salt: bigint, session: bigint, msgId: bigint, seqno: number, body: Uint8Array, extraPad = 0): Uint8Array<ArrayBuffer> {
  const w = new Bytes().i64(salt).i64(session).i64(msgId).u32(seqno).u32(body.length).raw(body);
  let pad = (16 - ((w.length + 12) % 16)) % 16 + 12 + extraPad * 16;
  w.raw(new Uint8Array(pad).fill(0xA5));
  const plain = w.done();
  const mk = sha256(key.subarray(96, 128), plain).subarray(8, 24);
  const { aesKey, aesIv } = envelopeKeys(key, mk, 8);
  return new Bytes().i64(keyId(key)).raw(mk).raw(igeEnc(plain, aesKey, aesIv)).done();
}

// ---------------------------------------------------------------- server

export const ID = {
  container: 0x73f1f8dc,
  gzip: 0x3072cfa1,
  rpcResult: 0xf35c6d01,
  rpcError: 0x2144ca19,
  ack: 0x62d6b459,
  pingDelay: 0xf3427b8c,
  ping: 0x7abe77ec,
  pong: 0x347773c5,
  badSalt: 0xedab447b,
  badMsg: 0xa7eff811,
  newSession: 0x9ec20908,
  detailed: 0x276d3ec6,
  newDetailed: 0x809db6df,
  vector: 0x1cb5c415,
};

export interface SessionRec {
  id: bigint;
  lastMsgId: bigint;
  seqCount: number;
  msgs: InMsg[];
}

/** Server side of one auth key; validates everything it receives. */
export class MtServer {
  key: Uint8Array;
  salt = 0x1122334455667788n;
  checkSalt = false;
  sessions = new Map<bigint, SessionRec>();
  /** content messages in order of arrival */
  inbox: InMsg[] = [];
  acked = new Map<bigint, number>();
  ackLog: { session: bigint; id: bigint; msg: InMsg }[] = [];
  #nextId = 0n;
  #srvSeq = new Map<bigint, number>();
  strict = true;
  /** no message can have been numbered without being transmitted */
  exactSeq = true;
  onMsg?: (m: InMsg) => void;
  lastSession: bigint = 0n;
  timeSkew = 0; // seconds added to the server's clock
  constructor(key: Uint8Array) {
    this.key = key;
  }
  nextMsgId(kind: 1 | 3 = 1): bigint {
    const ms = W.now + this.timeSkew * 1000;
    let id = (BigInt(Math.floor(ms / 1000)) << 32n) | (BigInt((ms % 1000) * 1e6) << 2n);
    id = (id & ~3n) | BigInt(kind);
    if (id <= this.#nextId) id = (this.#nextId & ~3n) + 4n + BigInt(kind);
    this.#nextId = id;
    return id;
  }
  serverSeq(session: bigint, content: boolean) {
    const n = this.#srvSeq.get(session) ?? 0;
    if (content) this.#srvSeq.set(session, n + 1);
    return n * 2 + (content ? 1 : 0);
  }
  receive(link: Link, p: Uint8Array): InMsg[] {
    const { salt, session, inner } = openEnvelope(this.key, p);
    let rec = this.sessions.get(session);
    if (!rec) this.sessions.set(session, rec = { id: session, lastMsgId: 0n, seqCount: 0, msgs: [] });
    this.lastSession = session;
    const r = new Rd(inner);
    const out: InMsg[] = [];
    const msgId = r.i64(), seqno = r.u32(), len = r.u32();
    const body = r.raw(len);
    const outer: InMsg = { link, sessionId: session, salt, msgId, seqno, container: null, raw: body, body, gz: false, id: new Rd(body).u32(), at: W.now };
    const all: InMsg[] = [];
    if (outer.id === ID.container) {
      const q = new Rd(body);
      q.u32();
      const n = q.u32();
      check(n > 0 && n <= 1020, "container size");
      for (let i = 0; i < n; i++) {
        const id = q.i64(), s = q.u32(), l = q.u32(), b = q.raw(l);
        const m: InMsg = { link, sessionId: session, salt, msgId: id, seqno: s, container: msgId, raw: b, body: b, gz: false, id: new Rd(b).u32(), at: W.now };
        check(m.id !== ID.container, "nested container");
        check(id < msgId, "a message inside a container must have a lower identifier than its container");
        all.push(m);
      }
      check(q.left === 0, "trailing bytes in container");
      all.push(outer);
    } else all.push(outer);
    for (const m of all) {
      if (m.id === ID.gzip) {
        const q = new Rd(m.body);
        q.u32();
        m.body = new Uint8Array(gunzipSync(q.bytes()));
        m.id = new Rd(m.body).u32();
        m.gz = true;
      }
    }
    if (this.strict) {
      for (const m of all.slice().sort((a, b) => a.msgId < b.msgId ? -1 : 1)) {
        check(m.msgId % 4n === 0n, () => `message identifier ${m.msgId} is not divisible by 4`);
        check(m.msgId > rec.lastMsgId, () => `message identifier ${m.msgId} does not increase (last ${rec.lastMsgId})`, "message identifier does not increase");
        rec.lastMsgId = m.msgId;
        const content = m.id !== ID.ack && m.id !== ID.container;
        const want = rec.seqCount * 2 + (content ? 1 : 0);
        const ok = m.seqno % 2 === want % 2 && (this.exactSeq ? m.seqno === want : m.seqno >= want);
        check(ok, () => `sequence number ${m.seqno} of ${content ? "a content-related" : "a service"} message, expected ${want}`, "wrong sequence number");
        rec.seqCount = (m.seqno - m.seqno % 2) / 2 + (content ? 1 : 0);
      }
    }
    for (const m of all) {
      if (m.id === ID.container && m === outer) continue;
      rec.msgs.push(m);
      out.push(m);
      if (m.id === ID.ack) {
        const q = new Rd(m.body);
        q.u32();
        check(q.u32() === ID.vector, "ack vector");
        const n = q.u32();
        check(n > 0 && n <= 8192, "ack count");
        for (let i = 0; i < n; i++) {
          const id = q.i64();
          this.acked.set(id, (this.acked.get(id) ?? 0) + 1);
          this.ackLog.push({ session, id, msg: m });
        }
      } else this.inbox.push(m);
      this.onMsg?.(m);
    }
    return out;
  }
  // ---- building server messages
  seal(session: bigint, body: Uint8Array, o: { content?: boolean; msgId?: bigint; salt?: bigint; extraPad?: number; key?: Uint8Array } = {}) {
    const msgId = o.msgId ?? this.nextMsgId(1);
    return sealEnvelope(o.key ?? this.key, o.salt ?? this.salt, session, msgId, this.serverSeq(session, o.content ?? true), body, o.extraPad);
  }
  container(parts: { msgId: bigint; seqno: number; body: Uint8Array }[]) {
    const w = new Bytes().u32(ID.container).u32(parts.length);
    for (const p of parts) w.i64(p.msgId).u32(p.seqno).u32(p.body.length).raw(p.body);
    return w.done();
  }
}
export const gz = (b: Uint8Array) => new Bytes().u32(ID.gzip).bytes(new Uint8Array(gzipSync(b))).done();
export const rpcResult = (req: bigint, body: Uint8Array) => new Bytes().u32(ID.rpcResult).i64(req).raw(body).done();
export const rpcError = (code: number, msg: string) => new Bytes().u32(ID.rpcError).u32(code).str(msg).done();
export const badSalt = (bad: bigint, seqno: number, salt: bigint) => new Bytes().u32(ID.badSalt).i64(bad).u32(seqno).u32(48).i64(salt).done();
export const badMsg = (bad: bigint, seqno: number, code: number) => new Bytes().u32(ID.badMsg).i64(bad).u32(seqno).u32(code).done();
export const newSession = (first: bigint, unique: bigint, salt: bigint) => new Bytes().u32(ID.newSession).i64(first).i64(unique).i64(salt).done();
export const pong = (msgId: bigint, pingId: bigint) => new Bytes().u32(ID.pong).i64(msgId).i64(pingId).done();
void fail;
