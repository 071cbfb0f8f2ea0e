// Byte-stream endpoints under the explorer's control: what Deno.connect, node:net and
// WebSocket hand to the connections of /repo, and model peers for them.
// deno-lint-ignore-file no-explicit-any
import { createHmac } from "node:crypto";
import { hooks, Socket } from "./fake_net.ts";
import { cat } from "./mt.ts";

export class Wire {
  id: number;
  kind: "deno" | "node" | "ws";
  target: any;
  state: "opening" | "open" | "refused" | "closed" = "opening";
  /** Bytes (or messages) the peer sent which the client was not given yet. */
  out: Uint8Array[] = [];
  received: Uint8Array[] = [];
  peerClosed = false;
  broken = false;
  pendingRead: { buf: Uint8Array; resolve: (n: number | null) => void; reject: (e: unknown) => void } | null = null;
  pendingWrites: { data: Uint8Array; resolve: (n: number) => void; reject: (e: unknown) => void }[] = [];
  late: { name: string; run: () => void }[] = [];
  onData: ((b: Uint8Array) => void) | null = null;
  accept!: () => void;
  refuse!: () => void;
  deliver!: (b: Uint8Array) => void;
  end!: () => void;
  fault!: () => void;
  delivered = 0;
  constructor(kind: Wire["kind"], id: number, target: any) {
    this.kind = kind;
    this.id = id;
    this.target = target;
  }
  push(b: Uint8Array) {
    if (this.kind === "ws") this.out.push(b);
    else if (b.length) this.out = [cat(...this.out, b)];
  }
  get available() {
    return this.out.length ? this.out[0].length : 0;
  }
  /** Whether something can be delivered now. */
  get deliverable() {
    if (this.state !== "open" || this.peerClosed && this.out.length === 0 || this.broken) return 0;
    if (this.out.length === 0) return 0;
    if (this.kind === "deno") return this.pendingRead ? Math.min(this.pendingRead.buf.length, this.out[0].length) : 0;
    return this.out[0].length;
  }
  take(n: number) {
    const m = this.out.shift()!;
    if (this.kind === "ws" || n >= m.length) return m;
    this.out.unshift(m.slice(n));
    return m.slice(0, n);
  }
  got(b: Uint8Array) {
    this.received.push(b);
    this.onData?.(b);
  }
}

export const wires: Wire[] = [];
export function resetWires() {
  wires.length = 0;
  hooks.created = nodeCreated;
}

class Interrupted extends Error {}

/** Deno.connect */
export function denoConnect(target: any): Promise<any> {
  const w = new Wire("deno", wires.length, target);
  wires.push(w);
  return new Promise((resolve, reject) => {
    w.refuse = () => {
      w.state = "refused";
      reject(new Error("Connection refused"));
    };
    w.accept = () => {
      w.state = "open";
      resolve(conn);
    };
    w.deliver = (b) => {
      const p = w.pendingRead!;
      w.pendingRead = null;
      p.buf.set(b);
      w.delivered += b.length;
      p.resolve(b.length);
    };
    w.end = () => {
      w.peerClosed = true;
      w.pendingRead?.resolve(null);
      w.pendingRead = null;
    };
    w.fault = () => {
      w.broken = true;
      w.pendingRead?.reject(new Error("Connection reset by peer"));
      w.pendingRead = null;
      for (const p of w.pendingWrites.splice(0)) p.reject(new Error("Broken pipe"));
    };
    const conn = {
      setNoDelay() {},
      setKeepAlive() {},
      read(buf: Uint8Array): Promise<number | null> {
        if (w.state !== "open") return Promise.reject(new Interrupted("Bad resource ID"));
        if (buf.length === 0) return Promise.resolve(0);
        if (w.broken) return Promise.reject(new Error("Connection reset by peer"));
        if (w.peerClosed && w.out.length === 0) return Promise.resolve(null);
        if (w.pendingRead) return Promise.reject(new Error("Busy: resource is already in use"));
        return new Promise((resolve, reject) => w.pendingRead = { buf, resolve, reject });
      },
      write(data: Uint8Array): Promise<number> {
        if (w.state !== "open") return Promise.reject(new Interrupted("Bad resource ID"));
        if (w.broken) return Promise.reject(new Error("Broken pipe"));
        data = data.slice();
        return new Promise((resolve, reject) => w.pendingWrites.push({ data, resolve, reject }));
      },
      close() {
        if (w.state !== "open") throw new Interrupted("Bad resource ID");
        w.state = "closed";
        const r = w.pendingRead, ws = w.pendingWrites.splice(0);
        w.pendingRead = null;
        if (r) w.late.push({ name: "read interrupted", run: () => r.reject(new Interrupted("operation canceled")) });
        for (const p of ws) w.late.push({ name: "write interrupted", run: () => p.reject(new Interrupted("operation canceled")) });
      },
    };
  });
}

function nodeCreated(s: Socket) {
  const w = new Wire("node", wires.length, s.target);
  wires.push(w);
  const closed = (n: string) => w.late.push({ name: n, run: () => s.emit("close", false) });
  w.refuse = () => {
    w.state = "refused";
    s.readyState = "closed";
    s.destroyed = true;
    s.emit("error", new Error("connect ECONNREFUSED"));
    closed("close event");
  };
  w.accept = () => {
    w.state = "open";
    s.readyState = "open";
    s.emit("connect");
  };
  w.deliver = (b) => {
    w.delivered += b.length;
    s.emit("data", b);
  };
  w.end = () => {
    w.peerClosed = true;
    w.state = "closed";
    s.readyState = "closed";
    s.destroyed = true;
    s.emit("end");
    fail();
    closed("close event");
  };
  w.fault = () => {
    w.broken = true;
    w.state = "closed";
    s.readyState = "closed";
    s.destroyed = true;
    fail();
    s.emit("error", new Error("read ECONNRESET"));
    closed("close event");
  };
  const fail = () => {
    for (const p of w.pendingWrites.splice(0)) p.reject(new Error("write EPIPE"));
  };
  s.onWrite = (data, cb) => {
    w.pendingWrites.push({ data, resolve: () => cb(null), reject: (e) => cb(e) });
  };
  s.onDestroy = () => {
    if (w.state === "opening") w.state = "refused";
    else if (w.state === "open") w.state = "closed";
    for (const p of w.pendingWrites.splice(0)) w.late.push({ name: "write interrupted", run: () => p.reject(Object.assign(new Error("Socket closed"), { code: "ERR_SOCKET_CLOSED" })) });
    closed("close event");
  };
}

export class FakeWebSocket {
  static CONNECTING = 0;
  static OPEN = 1;
  static CLOSING = 2;
  static CLOSED = 3;
  readyState = 0;
  binaryType = "blob";
  #on = new Map<string, ((e: any) => void)[]>();
  #w: Wire;
  constructor(url: string, protocols?: any) {
    const w = this.#w = new Wire("ws", wires.length, { url, protocols });
    wires.push(w);
    w.refuse = () => {
      w.state = "refused";
      this.readyState = 3;
      this.#emit("error", { message: "failed to connect" });
      w.late.push({ name: "close event", run: () => this.#emit("close", {}) });
    };
    w.accept = () => {
      w.state = "open";
      this.readyState = 1;
      this.#emit("open", {});
    };
    w.deliver = (b) => {
      w.delivered += b.length;
      this.#emit("message", { data: this.binaryType === "arraybuffer" ? b.slice().buffer : new Blob([b as any]) });
    };
    w.end = () => {
      w.peerClosed = true;
      w.state = "closed";
      this.readyState = 3;
      this.#emit("close", {});
    };
    w.fault = () => {
      w.broken = true;
      w.state = "closed";
      this.readyState = 3;
      this.#emit("error", { message: "broken" });
      w.late.push({ name: "close event", run: () => this.#emit("close", {}) });
    };
  }
  addEventListener(n: string, fn: (e: any) => void) {
    (this.#on.get(n) ?? this.#on.set(n, []).get(n)!).push(fn);
  }
  set onopen(fn: any) {
    this.addEventListener("open", fn);
  }
  set onmessage(fn: any) {
    this.addEventListener("message", fn);
  }
  set onclose(fn: any) {
    this.addEventListener("close", fn);
  }
  set onerror(fn: any) {
    this.addEventListener("error", fn);
  }
  #emit(n: string, e: any) {
    for (const fn of (this.#on.get(n) ?? []).slice()) fn(e);
  }
  send(d: any) {
    if (this.readyState === 0) throw new Error("InvalidStateError");
    if (this.readyState !== 1) return;
    this.#w.got(d instanceof ArrayBuffer ? new Uint8Array(d.slice(0)) : new Uint8Array(d.buffer, d.byteOffset, d.byteLength).slice());
  }
  close() {
    if (this.readyState >= 2) return;
    const w = this.#w;
    const before = this.readyState;
    this.readyState = 2;
    w.state = before === 0 ? "refused" : "closed";
    w.late.push({
      name: "close event",
      run: () => {
        this.readyState = 3;
        if (before === 0) this.#emit("error", { message: "closed before established" });
        this.#emit("close", {});
      },
    });
  }
}

/** What a wire's peer makes of its byte stream. */
export interface Peer {
  /** Payload received so far. */
  payload: Uint8Array;
  /** Something the client sent that violates the protocol. */
  problem: string | null;
  ready: boolean;
  /** Frame payload for sending. */
  wrap(b: Uint8Array): Uint8Array;
}

export function rawPeer(w: Wire): Peer {
  const p: Peer = { payload: new Uint8Array(), problem: null, ready: true, wrap: (b) => b };
  w.onData = (b) => p.payload = cat(p.payload, b);
  return p;
}

export interface SocksOptions {
  /** The method the proxy picks. */
  method: 0 | 2 | 0xff;
  credentials?: [string, string];
  address: 1 | 3 | 4;
  status: number;
}
export function socksPeer(w: Wire, o: SocksOptions, target: { host: Uint8Array; type: number; port: number }): Peer {
  let buf = new Uint8Array();
  let stage = 0;
  const p: Peer = { payload: new Uint8Array(), problem: null, ready: false, wrap: (b) => b };
  const bad = (m: string) => p.problem ??= m;
  w.onData = (b) => {
    buf = cat(buf, b);
    for (;;) {
      if (stage === 0) {
        if (buf.length < 2 || buf.length < 2 + buf[1]) return;
        if (buf[0] !== 5) return void bad("wrong SOCKS version in greeting");
        const m = [...buf.slice(2, 2 + buf[1])];
        if (o.method !== 0xff && !m.includes(o.method)) return void bad(`method ${o.method} not offered`);
        buf = buf.slice(2 + buf[1]);
        w.push(new Uint8Array([5, o.method]));
        stage = o.method === 2 ? 1 : o.method === 0 ? 2 : 9;
      } else if (stage === 1) {
        if (buf.length < 2 || buf.length < 3 + buf[1]) return;
        const ul = buf[1], pl = buf[2 + ul];
        if (buf.length < 3 + ul + pl) return;
        if (buf[0] !== 1) return void bad("wrong version of the authentication request");
        const u = new TextDecoder().decode(buf.slice(2, 2 + ul)), q = new TextDecoder().decode(buf.slice(3 + ul, 3 + ul + pl));
        const ok = u === o.credentials![0] && q === o.credentials![1];
        buf = buf.slice(3 + ul + pl);
        w.push(new Uint8Array([1, ok ? 0 : 1]));
        stage = ok ? 2 : 9;
      } else if (stage === 2) {
        if (buf.length < 5) return;
        const al = buf[3] === 1 ? 4 : buf[3] === 4 ? 16 : buf[3] === 3 ? 1 + buf[4] : -1;
        if (al < 0) return void bad(`unknown address type ${buf[3]}`);
        if (buf.length < 6 + al) return;
        if (buf[0] !== 5 || buf[1] !== 1 || buf[2] !== 0) return void bad("malformed connect request");
        const host = buf[3] === 3 ? buf.slice(5, 4 + al) : buf.slice(4, 4 + al);
        const port = buf[4 + al] * 256 + buf[5 + al];
        if (buf[3] !== target.type || port !== target.port || host.length !== target.host.length || !host.every((x, i) => x === target.host[i])) {
          return void bad(`asked for another target: type ${buf[3]} host ${host} port ${port}`);
        }
        buf = buf.slice(6 + al);
        const addr = o.address === 1 ? [1, 9, 8, 7, 6] : o.address === 4 ? [4, ...Array(16).fill(7)] : [3, 5, 104, 101, 108, 108, 111];
        w.push(new Uint8Array([5, o.status, 0, ...addr, 1, 2]));
        if (o.status === 0) {
          stage = 3;
          p.ready = true;
        } else stage = 9;
      } else if (stage === 3) {
        p.payload = cat(p.payload, buf);
        buf = new Uint8Array();
        return;
      } else {
        if (buf.length) bad("went on after the proxy refused");
        return;
      }
    }
  };
  return p;
}

export interface TlsOptions {
  secret: Uint8Array;
  domain: string;
  now: () => number;
  /** Change the answer before it is sent. */
  tamper?: (b: Uint8Array) => Uint8Array;
  /** Length of the fake certificate record. */
  cert?: number;
}
const hmac = (k: Uint8Array, d: Uint8Array) => new Uint8Array(createHmac("sha256", k).update(d).digest());
export function tlsPeer(w: Wire, o: TlsOptions): Peer {
  let buf = new Uint8Array();
  let stage = 0;
  const p: Peer = {
    payload: new Uint8Array(),
    problem: null,
    ready: false,
    wrap: (b) => cat(new Uint8Array([0x17, 3, 3, b.length >> 8, b.length & 255]), b),
  };
  const bad = (m: string) => p.problem ??= m;
  w.onData = (b) => {
    buf = cat(buf, b);
    for (;;) {
      if (stage === 0) {
        if (buf.length < 517) return;
        const hello = buf.slice(0, 517);
        buf = buf.slice(517);
        if (hello[0] !== 0x16 || hello[1] !== 3 || hello[3] !== 2 || hello[4] !== 0) return void bad("malformed client hello record");
        if (hello[5] !== 1 || hello[6] !== 0 || hello[7] !== 1 || hello[8] !== 0xfc) return void bad("malformed client hello");
        const random = hello.slice(11, 43);
        const zero = hello.slice();
        zero.fill(0, 11, 43);
        const h = hmac(o.secret, zero);
        for (let i = 0; i < 28; i++) if (h[i] !== random[i]) return void bad("client hello is not authenticated");
        let t = 0;
        for (let i = 3; i >= 0; i--) t = t * 256 + ((h[28 + i] ^ random[28 + i]) & 255);
        if (t !== Math.floor(o.now() / 1000)) return void bad(`client hello carries time ${t}`);
        // server name extension
        const name = new TextEncoder().encode(o.domain);
        const at = hello.findIndex((_, i) => name.every((x, k) => hello[i + k] === x));
        if (at < 0 || hello[at - 1] !== name.length || hello[at - 4] * 256 + hello[at - 3] !== 0 * 256 + 0 && hello[at - 5] * 256 + hello[at - 4] !== name.length + 3) return void bad("server name extension is malformed");
        const sh = new Uint8Array(5 + 122);
        sh.set([0x16, 3, 3, 0, 122, 2, 0, 0, 118, 3, 3]);
        const cert = o.cert ?? 40;
        const rest = new Uint8Array([0x14, 3, 3, 0, 1, 1, 0x17, 3, 3, cert >> 8, cert & 255]);
        const body = new Uint8Array(cert).map((_, i) => i * 13 + 5);
        let res = cat(sh, rest, body);
        res.set(hmac(o.secret, cat(random, res)), 11);
        if (o.tamper) res = o.tamper(res);
        w.push(res);
        stage = 1;
      } else if (stage === 1) {
        if (buf.length < 6) return;
        if ([0x14, 3, 3, 0, 1, 1].some((x, i) => buf[i] !== x)) return void bad("no change-cipher-spec before the first record");
        buf = buf.slice(6);
        stage = 2;
      } else {
        if (buf.length < 5) return;
        const n = buf[3] * 256 + buf[4];
        if (buf[0] !== 0x17 || buf[1] !== 3 || buf[2] !== 3) return void bad(`record starts with ${buf.slice(0, 3)}`);
        if (n > 16384 + 256) return void bad(`record of ${n} bytes`);
        if (buf.length < 5 + n) return;
        p.ready = true;
        p.payload = cat(p.payload, buf.slice(5, 5 + n));
        buf = buf.slice(5 + n);
      }
    }
  };
  return p;
}
