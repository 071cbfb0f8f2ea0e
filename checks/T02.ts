// deno-lint-ignore-file no-explicit-any
import { settle, W } from "../lib/world.ts";
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { denoConnect, FakeWebSocket, type Peer, rawPeer, resetWires, type SocksOptions, socksPeer, tlsPeer, type Wire, wires } from "../lib/streams.ts";
import { ConnectionTCP } from "/repo/connection/1_connection_tcp.ts";
import { ConnectionTLS } from "/repo/connection/1_connection_tls.ts";
import { ConnectionSocks5 } from "/repo/connection/1_connection_socks5.ts";
import { ConnectionWebSocket } from "/repo/connection/1_connection_web_socket.ts";
import { ConnectionTCP as NodeTCP } from "/repo/connection/1_connection_tcp.node.ts";
import { ConnectionTLS as NodeTLS } from "/repo/connection/1_connection_tls.node.ts";
import { ConnectionSocks5 as NodeSocks5 } from "/repo/connection/1_connection_socks5.node.ts";

(Deno as any).connect = denoConnect;
(globalThis as any).WebSocket = FakeWebSocket;

const SECRET = new Uint8Array(16).map((_, i) => i * 9 + 1);
const TLS_SECRET = new Uint8Array([0xee, ...SECRET, ...new TextEncoder().encode("example.org")]);

interface Kind {
  make(): any;
  peer(w: Wire): Peer;
  /** A peer may only speak after the client has. */
  quiet?: boolean;
  partial?: boolean;
}
const socks: SocksOptions = { method: 2, credentials: ["user", "pass"], address: 3, status: 0 };
const hostBytes = new TextEncoder().encode("dc.example");
const kinds: Record<string, Kind> = {
  tcp: { make: () => Object.assign(new ConnectionTCP("dc.example", 443), { connect: denoConnect }), peer: rawPeer, partial: true },
  tls: { make: () => Object.assign(new ConnectionTLS("dc.example", 443, TLS_SECRET), { connect: denoConnect }), peer: (w) => tlsPeer(w, { secret: SECRET, domain: "example.org", now: () => W.now }), quiet: true, partial: true },
  socks5: { make: () => new ConnectionSocks5("dc.example", 443, "proxy", 1080, { username: "user", password: "pass" }), peer: (w) => socksPeer(w, socks, { host: hostBytes, type: 3, port: 443 }), partial: true },
  websocket: { make: () => new ConnectionWebSocket("wss://dc.example/apiws"), peer: rawPeer },
  "node tcp": { make: () => new NodeTCP("dc.example", 443), peer: rawPeer },
  "node tls": { make: () => new NodeTLS("dc.example", 443, TLS_SECRET), peer: (w) => tlsPeer(w, { secret: SECRET, domain: "example.org", now: () => W.now }), quiet: true },
  "node socks5": { make: () => new NodeSocks5("dc.example", 443, "proxy", 1080, { username: "user", password: "pass" }), peer: (w) => socksPeer(w, socks, { host: hostBytes, type: 3, port: 443 }) },
};

const byteAt = (wire: number, i: number) => (wire * 101 + i * 7 + 3) & 255;
const TOTAL = 24;

interface Op {
  name: string;
  kind: "read" | "write";
  wire: number;
  at: number;
  data: Uint8Array;
  state: "pending" | "ok" | "failed";
}
class Run {
  ctl: Ctl;
  k: Kind;
  conn: any;
  peers = new Map<Wire, Peer>();
  ops: Op[] = [];
  states: boolean[] = [];
  opening: "no" | "pending" | "ok" | "failed" = "no";
  /** The application closed the connection after the last successful open. */
  userClosed = false;
  readOff = new Map<number, number>();
  fed = new Set<Wire>();
  pattern: number[];
  counted = { read: 0, write: 0 };
  seq = 0;
  constructor(ctl: Ctl, k: Kind, pattern: number[]) {
    this.ctl = ctl;
    this.k = k;
    this.pattern = pattern;
    resetWires();
    this.conn = k.make();
    this.conn.stateChangeHandler = (s: boolean) => {
      this.states.push(s);
      ctl.note(`state ${s}`);
    };
    this.conn.callback = { read: (n: number) => this.counted.read += n, write: (n: number) => this.counted.write += n };
  }
  get cur(): Wire {
    return wires[wires.length - 1];
  }
  async open() {
    this.opening = "pending";
    const before = wires.length;
    const p = (async () => this.conn.open())();
    p.then(() => {
      this.opening = "ok";
      this.userClosed = false;
      this.ctl.note("open resolved");
    }, (e: any) => {
      this.opening = "failed";
      this.ctl.note("open failed: " + e?.message);
    });
    await settle();
    void before;
  }
  start(kind: "read" | "write", n: number) {
    const wire = this.cur.id;
    const op: Op = { name: `${kind} ${n}`, kind, wire, at: 0, data: new Uint8Array(n), state: "pending" };
    if (kind === "write") op.data.set(Array.from({ length: n }, (_, i) => (200 + this.seq * 11 + i) & 255)), this.seq++;
    this.ops.push(op);
    const given = op.data.slice();
    const p = kind === "read" ? (async () => this.conn.read(op.data))() : (async () => this.conn.write(given))();
    p.then(() => {
      op.state = "ok";
      this.ctl.note(`${op.name} done`);
      if (kind === "read") {
        const at = this.readOff.get(wire) ?? 0;
        for (let i = 0; i < n; i++) {
          if (op.data[i] !== byteAt(wire, at + i)) fail(`a read returned other bytes than the peer of its connection sent at offset ${at}: ${op.data}`, "read returned wrong bytes");
        }
        this.readOff.set(wire, at + n);
      }
    }, (e: any) => {
      op.state = "failed";
      this.ctl.note(`${op.name} failed: ${e?.message}`);
      if (!(e instanceof Error)) fail("an operation failed without an error");
    }).catch((e) => W.unhandled.push(e));
  }
  busy(kind: string) {
    return this.ops.some((o) => o.kind === kind && o.state === "pending");
  }
  /** What the network could do now. */
  net(): { name: string; run: () => void }[] {
    const out: { name: string; run: () => void }[] = [];
    const w = this.cur;
    if (!w) return out;
    for (const x of wires) {
      for (const l of x.late) {
        out.push({
          name: `#${x.id} ${l.name}`,
          run: () => {
            x.late.splice(x.late.indexOf(l), 1);
            l.run();
          },
        });
        break;
      }
    }
    if (w.state === "opening") {
      out.push({
        name: `#${w.id} accept`,
        run: () => {
          this.peers.set(w, this.k.peer(w));
          w.accept();
        },
      });
    }
    if (w.state === "open" && !w.broken) {
      if (w.pendingWrites.length) {
        const p = w.pendingWrites[0];
        out.push({
          name: `#${w.id} take ${p.data.length}`,
          run: () => {
            w.pendingWrites.shift();
            w.got(p.data);
            p.resolve(p.data.length);
          },
        });
      }
      const d = w.deliverable;
      if (d) out.push({ name: `#${w.id} deliver ${d}`, run: () => w.deliver(w.take(d)) });
    }
    return out;
  }
  faults(): { name: string; run: () => void }[] {
    const out: { name: string; run: () => void }[] = [];
    const w = this.cur;
    if (!w) return out;
    if (w.state === "opening") out.push({ name: "refuse", run: () => w.refuse() });
    if (w.state === "open" && !w.broken && !w.peerClosed) {
      if (w.deliverable > 1 && w.kind !== "ws") {
        out.push({ name: "deliver 1", run: () => w.deliver(w.take(1)) });
        if (w.deliverable > 2) out.push({ name: `deliver ${w.deliverable - 1}`, run: () => w.deliver(w.take(w.deliverable - 1)) });
      }
      if (this.k.partial && w.pendingWrites.length && w.pendingWrites[0].data.length > 1) {
        const p = w.pendingWrites[0];
        for (const n of new Set([1, p.data.length - 1])) {
          out.push({
            name: `take only ${n}`,
            run: () => {
              w.pendingWrites.shift();
              w.got(p.data.slice(0, n));
              p.resolve(n);
            },
          });
        }
      }
      out.push({ name: "peer closes", run: () => w.end() });
      out.push({ name: "connection breaks", run: () => w.fault() });
    }
    return out;
  }
  feed() {
    for (const [w, p] of this.peers) {
      if (p.problem) fail(`the peer was sent something malformed: ${p.problem}`);
      if (p.ready && !this.fed.has(w) && w.state === "open") {
        this.fed.add(w);
        let at = 0, i = 0;
        while (at < TOTAL) {
          const n = Math.min(this.pattern[i++ % this.pattern.length], TOTAL - at);
          w.push(p.wrap(new Uint8Array(n).map((_, j) => byteAt(w.id, at + j))));
          at += n;
        }
      }
    }
  }
  invariant() {
    if (W.unhandled.length) {
      const e = W.unhandled[0] as any;
      if (e?.constructor?.name === "Violation") throw e;
      fail("unhandled error: " + String(e?.stack ?? e));
    }
    const open = wires.filter((w) => w.state === "open" || w.state === "opening");
    check(open.length <= 1, `${open.length} connections are open at once`, "several connections open");
    if (this.conn.isConnected) check(!this.userClosed && this.cur.state === "open", "reported as connected without an open connection");
    // what reached the wire must be a prefix of the writes made on it, in order
    for (const [w, p] of this.peers) {
      const mine = this.ops.filter((o) => o.kind === "write" && o.wire === w.id);
      let i = 0;
      for (const o of mine) {
        const got = p.payload.slice(i, i + o.data.length);
        if (got.length && !got.every((x, j) => x === o.data[j])) fail(`the peer of connection ${w.id} received ${p.payload}, which is not what was written to it`, "peer received other bytes");
        if (o.state === "ok" && got.length < o.data.length) fail(`a write was reported complete after ${got.length} of ${o.data.length} bytes`, "write incomplete");
        i += got.length;
        if (got.length < o.data.length) break;
      }
      check(p.payload.length <= i, `the peer of connection ${w.id} received bytes nobody wrote to it`, "peer received other bytes");
    }
  }
}

async function drive(ctl: Ctl, k: Kind, pattern: number[], script: [string, number][], overlap: boolean) {
  const r = new Run(ctl, k, pattern);
  let pc = 0;
  let recovering = 0;
  for (let step = 0; step < 300; step++) {
    r.feed();
    const acts: { name: string; run: () => void | Promise<void> }[] = [];
    const net = r.net();
    const connected = r.conn.isConnected;
    const script_ = (): { name: string; run: () => void | Promise<void> } | null => {
      if (r.opening === "pending") return null;
      if (!connected) {
        if (net.length && recovering) return null;
        return { name: "open", run: async () => (recovering++, await r.open()) };
      }
      if (pc < script.length) {
        const [kind, n] = script[pc];
        if (!overlap && r.busy("read") && kind === "read") return null;
        if (!overlap && r.busy("write") && kind === "write") return null;
        // reading more than is ever sent would only wait
        const rest = TOTAL - r.ops.filter((o) => o.kind === "read" && o.wire === r.cur.id).reduce((a, o) => a + o.data.length, 0);
        if (kind === "read" && n > rest) return (pc++, script_());
        return { name: `${kind} ${n}`, run: () => (pc++, r.start(kind as any, n)) };
      }
      return null;
    };
    const next = script_();
    acts.push(...net);
    if (next) acts.push(next);
    if (acts.length === 0) break;
    if (recovering < 5) {
      acts.push(...r.faults());
      if (connected) {
        acts.push({
          name: "close",
          run: () => {
            r.userClosed = true;
            r.conn.close();
          },
        });
      } else if (next === null && r.opening !== "pending" && recovering > 0) acts.push({ name: "open", run: async () => (recovering++, await r.open()) });
    }
    const a = acts[ctl.choose(acts.length, acts.map((x) => x.name).join("|"))];
    ctl.step(a.name);
    const wasOpening = r.opening === "pending";
    const wasConnected = connected;
    await a.run();
    await settle();
    r.invariant();
    if (wasOpening && r.opening === "ok") {
      check(r.conn.isConnected, "open resolved, but the connection is not open");
      check(r.states[r.states.length - 1] === true, "open resolved, and the state handler was not told");
    }
    if (wasConnected && !r.conn.isConnected && r.opening !== "pending") {
      const w = r.cur;
      if (w.state === "open" && !w.broken && !w.peerClosed) fail("an intact connection is reported as closed");
    }
    if (wasOpening && r.opening === "failed") {
      check(!r.conn.isConnected, "open failed, but the connection counts as open");
      check(!["open", "opening"].includes(r.cur.state) || r.cur.broken, "open failed and left its socket open");
    }
  }
  // quiescent: nothing of the network is outstanding
  r.feed();
  for (const o of r.ops) {
    if (o.state === "pending") {
      const dead = o.wire !== r.cur.id || r.cur.state !== "open" || r.cur.broken || r.cur.peerClosed;
      const readable = o.kind === "read" && k.quiet && !r.peers.get(r.cur)?.ready;
      if (dead || !readable) fail(`${o.name} on connection ${o.wire} never settles`, "operation never settles");
    }
  }
  check(r.opening !== "pending", "open never settles");
  for (const w of wires) if (w !== r.cur) check(w.state !== "open", `connection ${w.id} was replaced and left open`, "replaced connection left open");
  const failedAny = r.ops.some((o) => o.state === "failed" && o.wire === r.cur.id);
  if (failedAny) check(!r.conn.isConnected, "an operation failed, but the connection counts as open");
  if (!r.conn.isConnected && r.states.length) check(r.states[r.states.length - 1] === false, "the connection ended and the state handler was not told");
  if (!r.conn.isConnected) check(r.cur.state !== "open", "the connection ended and its socket was left open", "dead socket left open");
  if (k.make().callback !== undefined || r.cur.kind !== "ws") {
    const total = wires.reduce((a, w) => a + w.delivered, 0);
    check(r.counted.read === total, `${r.counted.read} bytes were counted as read, ${total} were delivered`, "read bytes miscounted");
    const sent = wires.reduce((a, w) => a + w.received.reduce((b, x) => b + x.length, 0), 0);
    check(r.counted.write <= sent && (failedAny || r.ops.some((o) => o.state === "failed") || recovering > 1 || r.counted.write === sent), `${r.counted.write} bytes were counted as written, ${sent} were sent`, "written bytes miscounted");
  }
  ctl.outcome(r.ops.map((o) => `${o.name}@${o.wire}:${o.state}`).join(",") + r.states.join() + ctl.log.length);
}

/** Opens once against a peer with some behaviour; whatever arrives is cut at `cut`. */
async function handshake(ctl: Ctl, make: () => any, peer: (w: Wire) => Peer, accepts: boolean, cut: number, payload = 5) {
  const r = new Run(ctl, { make, peer }, [TOTAL]);
  await r.open();
  for (let i = 0; i < 400; i++) {
    const w = r.cur;
    const acts = r.net();
    if (acts.length === 0) {
      if (r.opening === "pending" && !w.peerClosed) {
        ctl.step("peer closes");
        w.end();
        await settle();
        continue;
      }
      break;
    }
    const d = w.deliverable;
    let a = acts[0];
    if (d && w.delivered < cut && w.delivered + d > cut && a.name.includes("deliver")) a = { name: `deliver up to ${cut}`, run: () => w.deliver(w.take(cut - w.delivered)) };
    ctl.step(a.name);
    a.run();
    await settle();
    r.invariant();
    for (const p of r.peers.values()) check(!p.problem, () => `the peer was sent something malformed: ${p.problem}`);
  }
  check(r.opening !== "pending", "open never settles");
  check(accepts === (r.opening === "ok"), accepts ? "open failed although the peer accepted" : "open succeeded although the peer refused or its answer was forged");
  check(r.conn.isConnected === accepts, "the state after open is wrong");
  if (!accepts) {
    check(!r.states.includes(true), "reported as connected");
    check(r.cur.state !== "open", "a failed open left its socket open");
    return;
  }
  // both directions work
  const k = payload;
  r.start("write", k);
  for (let i = 0; i < 100; i++) {
    await settle();
    r.feed();
    const acts = r.net();
    if (!acts.length) break;
    acts[0].run();
  }
  r.start("read", 7);
  for (let i = 0; i < 100; i++) {
    await settle();
    const acts = r.net();
    if (!acts.length) break;
    acts[0].run();
  }
  r.invariant();
  check(r.ops.every((o) => o.state === "ok"), "an operation on an intact connection did not complete");
  ctl.outcome(`${cut} ${payload}`);
}
const enc = (t: string) => new TextEncoder().encode(t);
function handshakes(): Scenario[] {
  const out: Scenario[] = [];
  const hosts: [string, number, Uint8Array][] = [
    ["dc.example", 3, hostBytes],
    ["1.2.255.0", 1, new Uint8Array([1, 2, 255, 0])],
    ["2001:db8::ff:1", 4, new Uint8Array([0x20, 1, 0xd, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0, 1])],
    ["a".repeat(255), 3, enc("a".repeat(255))],
  ];
  for (const C of [ConnectionSocks5, NodeSocks5] as any[]) {
    const node = C === NodeSocks5 ? "node " : "";
    out.push({
      name: `${node}socks5 negotiations`,
      run(ctl) {
        const [host, type, bytes] = ctl.pick(hosts, "host");
        const port = ctl.pick([443, 80, 65535], "port");
        const method = ctl.pick([0, 2, 0xff] as const, "method");
        const cred = ctl.pick([undefined, ["user", "pass"], ["user", "wrong"], ["é".repeat(60), "x".repeat(255)]] as const, "credentials");
        const address = ctl.pick([1, 3, 4] as const, "bound address");
        const status = ctl.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 255], "status");
        const real: [string, string] = cred && cred[1].length === 255 ? [cred[0], cred[1]] : ["user", "pass"];
        const ok = status === 0 && (method === 0 || method === 2 && cred !== undefined && cred[1] !== "wrong");
        const make = () => new C(host, port, "proxy", 1080, cred && { username: cred[0], password: cred[1] });
        return handshake(ctl, make, (w) => socksPeer(w, { method, credentials: real, address, status }, { host: bytes, type, port }), ok, ctl.pick([0, 1, 3], "cut"));
      },
    });
  }
  for (const C of [ConnectionTLS, NodeTLS] as any[]) {
    const node = C === NodeTLS ? "node " : "";
    const make = () => C === NodeTLS ? new C("dc.example", 443, TLS_SECRET) : Object.assign(new C("dc.example", 443, TLS_SECRET), { connect: denoConnect });
    const peer = (tamper?: any, cert?: number) => (w: Wire) => tlsPeer(w, { secret: SECRET, domain: "example.org", now: () => W.now, tamper, cert });
    out.push({
      name: `${node}tls cut answers`,
      run: (ctl) => handshake(ctl, make, peer(undefined, ctl.pick([0, 1, 40, 3000, 4096], "certificate")), true, ctl.free(200, "cut")),
    });
    out.push({
      name: `${node}tls forged answers`,
      run(ctl) {
        const i = ctl.free(178, "byte"), x = ctl.pick([1, 2, 0x10, 0x80, 0xff], "change");
        return handshake(ctl, make, peer((b: Uint8Array) => (b[i] ^= x, b)), false, 0);
      },
    });
    out.push({
      name: `${node}tls payload lengths`,
      run: (ctl) => handshake(ctl, make, peer(), true, 0, ctl.pick([1, 2, 2872, 2873, 2874, 5746, 5747, 16384, 70000], "length")),
    });
    out.push({
      name: `${node}tls forged by another secret`,
      run(ctl) {
        const s = SECRET.slice();
        s[ctl.free(16, "byte")] ^= ctl.pick([1, 0x80], "change");
        // such a proxy answers under its own secret
        return handshake(ctl, make, (w) => {
          const p = tlsPeer(w, { secret: SECRET, domain: "example.org", now: () => W.now, tamper: (b) => (b.set(new Uint8Array(32).map((_, i) => s[i % 16]), 11), b) });
          return p;
        }, false, 0);
      },
    });
    out.push({
      name: `${node}tls broken records`,
      async run(ctl) {
        const r = new Run(ctl, { make, peer: peer() }, [TOTAL]);
        const flush = async () => {
          for (let i = 0; i < 100; i++) {
            await settle();
            const acts = r.net();
            if (!acts.length) break;
            acts[0].run();
          }
          await settle();
        };
        await r.open();
        await flush();
        r.start("write", 4);
        await flush();
        const head = [0x17, 3, 3, 0, 8];
        const i = ctl.free(3, "byte");
        head[i] ^= ctl.pick([1, 2, 4, 0x80], "change");
        r.cur.push(new Uint8Array([...head, 1, 2, 3, 4, 5, 6, 7, 8]));
        r.start("read", 8);
        await flush();
        check(r.ops[1].state === "failed", "a broken record was accepted");
        check(!r.conn.isConnected && r.cur.state !== "open", "the connection survives a broken record", "connection survives a broken record");
        check(r.states[r.states.length - 1] === false, "the state handler was not told");
        ctl.outcome(String(i));
      },
    });
  }
  return out;
}

/** Streams of several hundred records, read with other sizes than they were sent with. */
function streams(deep: boolean): Scenario[] {
  return Object.entries(kinds).map(([name, k]) => ({
    name: `${name}, long streams`,
    run: async (ctl: Ctl) => {
      const r = new Run(ctl, k, [TOTAL]);
      const size = ctl.pick(deep ? [1, 2, 3, 7, 40, 300] : [1, 3, 7], "record");
      const want = ctl.pick(deep ? [1, 2, 5, 11, 64, 200, 1000] : [1, 2, 5, 64], "read");
      const backlog = ctl.pick(deep ? [300, 150, 70, 5, 1] : [300, 70, 5], "backlog");
      const flush = async () => {
        await settle();
        for (let i = 0; i < 5000; i++) {
          const acts = r.net();
          if (!acts.length) break;
          acts[0].run();
          await settle();
        }
      };
      await r.open();
      await flush();
      r.start("write", 4); // completes the handshakes that wait for the first byte
      await flush();
      check(r.conn.isConnected, "open failed although the peer accepted");
      const w = r.cur;
      const peer = r.peers.get(w)!;
      let sent = 0, asked = 0;
      for (let i = 0; i < 300; i++) {
        w.push(peer.wrap(new Uint8Array(size).map((_, j) => byteAt(w.id, sent + j))));
        sent += size;
        const d = w.deliverable;
        if (d && w.kind !== "deno") w.deliver(w.take(d));
        if ((i + 1) % backlog === 0 || i === 299) {
          await settle();
          while (asked + want <= sent) {
            r.start("read", want);
            asked += want;
            await flush();
          }
        }
      }
      ctl.step(`${sent} bytes`);
      r.invariant();
      check(r.ops.every((o) => o.state === "ok"), "an operation on an intact connection did not complete");
      ctl.outcome(`${size} ${want} ${backlog}`);
    },
  }));
}

const PATTERNS: Record<string, number[]> = { "whole": [TOTAL], "mixed": [1, 3, 9, 2] };
const SCRIPT: [string, number][] = [["write", 5], ["read", 4], ["write", 3], ["read", 3], ["read", 9]];
const DEEP: [string, number][] = [["write", 5], ["read", 4], ["read", 2], ["write", 3], ["write", 2], ["read", 1]];

export default {
  id: "T02",
  level: "fault_enumeration",
  rule: "every schedule of opens, reads, writes, partial transfers, ends, resets, refusals, closes and late notifications within the deviation budget, for each kind of connection; an execution is non-trivial when its sequence of operation outcomes is new",
  assumptions: ["the operating system's sockets behave like the stand-ins: bytes in order, an interrupted operation rejects some time after close"],
  exhaustive: true,
  scenarios(tier) {
    const deep = tier === "thorough" ? 1 : 0;
    const out: Scenario[] = [];
    for (const [name, k] of Object.entries(kinds)) {
      const b = (k.quiet || name.endsWith("socks5") ? 2 : 3) + deep;
      for (const [pn, p] of Object.entries(PATTERNS)) {
        out.push({ name: `${name}, ${pn} records`, budget: b, shard: true, run: (ctl) => drive(ctl, k, p, SCRIPT, false) });
      }
      out.push({ name: `${name}, overlapping`, budget: b, shard: true, run: (ctl) => drive(ctl, k, [TOTAL], DEEP, true) });
    }
    return [...out, ...handshakes(), ...streams(deep === 1)];
  },
} satisfies CheckDef;
