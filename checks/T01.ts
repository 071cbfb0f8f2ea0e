// deno-lint-ignore-file no-explicit-any
import { createCipheriv, createHash } from "node:crypto";
import { settle, W } from "../lib/world.ts";
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { cat, Net, pong, sealEnvelope, testKey } from "../lib/mt.ts";
import { Rpc } from "../lib/rpc.ts";
import { SessionPlain } from "/repo/session/2_session_plain.ts";
import { TransportAbridged } from "/repo/transport/1_transport_abridged.ts";
import { TransportIntermediate } from "/repo/transport/1_transport_intermediate.ts";

/** A connection that delivers exactly what is asked for, as soon as it is there. */
class Pipe {
  sent: Uint8Array[] = [];
  queue = new Uint8Array();
  wait: { p: Uint8Array; done: () => void } | null = null;
  isConnected = true;
  open() {}
  close() {}
  read(p: Uint8Array) {
    return new Promise<void>((done) => {
      if (this.wait) fail("two reads at once");
      this.wait = { p, done };
      this.pump();
    });
  }
  async write(p: Uint8Array) {
    await Promise.resolve();
    this.sent.push(p.slice());
  }
  push(b: Uint8Array) {
    this.queue = cat(this.queue, b);
    this.pump();
  }
  pump() {
    const w = this.wait;
    if (w && this.queue.length >= w.p.length) {
      w.p.set(this.queue.subarray(0, w.p.length));
      this.queue = this.queue.slice(w.p.length);
      this.wait = null;
      w.done();
    }
  }
  take() {
    const b = cat(...this.sent);
    this.sent = [];
    return b;
  }
}

interface Mode {
  name: string;
  protocol: "abridged" | "intermediate";
  obfuscated: boolean;
  padded: boolean;
  secret?: Uint8Array;
  dc?: number;
}
const secret16 = new Uint8Array(16).map((_, i) => 17 * i + 3);
const MODES: Mode[] = [
  { name: "abridged", protocol: "abridged", obfuscated: false, padded: false },
  { name: "abridged obfuscated", protocol: "abridged", obfuscated: true, padded: false },
  { name: "intermediate", protocol: "intermediate", obfuscated: false, padded: false },
  { name: "intermediate padded", protocol: "intermediate", obfuscated: false, padded: true },
  { name: "intermediate obfuscated", protocol: "intermediate", obfuscated: true, padded: false },
  { name: "intermediate obfuscated padded", protocol: "intermediate", obfuscated: true, padded: true, dc: -10002 },
  { name: "proxy secret", protocol: "intermediate", obfuscated: true, padded: true, secret: secret16, dc: 2 },
  { name: "proxy dd secret", protocol: "intermediate", obfuscated: true, padded: true, secret: cat(new Uint8Array([0xdd]), secret16), dc: -4 },
  { name: "proxy ee secret", protocol: "intermediate", obfuscated: true, padded: true, secret: cat(new Uint8Array([0xee]), secret16, new TextEncoder().encode("example.org")), dc: 10003 },
];

class Server {
  m: Mode;
  buf = new Uint8Array();
  dec: any = null;
  enc: any = null;
  started = false;
  frames: Uint8Array[] = [];
  constructor(m: Mode) {
    this.m = m;
  }
  feed(b: Uint8Array) {
    if (this.dec) b = new Uint8Array(this.dec.update(b));
    this.buf = cat(this.buf, b);
    if (!this.started) {
      if (this.m.obfuscated) {
        if (this.buf.length < 64) return;
        const raw = this.buf.slice(0, 64);
        const v = new DataView(raw.buffer);
        check(raw[0] !== 0xef, "the initialization starts like the abridged protocol");
        check(![0x44414548, 0x54534f50, 0x20544547, 0x4954504f, 0x02010316, 0xdddddddd, 0xeeeeeeee].includes(v.getUint32(0, true)), "the initialization starts like another protocol");
        check(v.getUint32(4, true) !== 0, "the initialization starts like the full protocol");
        const rev = raw.slice().reverse();
        const s = this.m.secret && (this.m.secret.length === 16 ? this.m.secret : this.m.secret.slice(1, 17));
        const key = (k: Uint8Array) => s ? new Uint8Array(createHash("sha256").update(cat(k, s)).digest()) : k;
        this.dec = createCipheriv("aes-256-ctr", key(raw.slice(8, 40)), raw.slice(40, 56));
        this.enc = createCipheriv("aes-256-ctr", key(rev.slice(8, 40)), rev.slice(40, 56));
        const plain = new Uint8Array(this.dec.update(raw));
        const tag = this.m.protocol === "abridged" ? 0xef : this.m.padded ? 0xdd : 0xee;
        check(plain.slice(56, 60).every((x) => x === tag), "the initialization names another protocol");
        if (this.m.dc !== undefined) check(new DataView(plain.buffer).getInt16(60, true) === this.m.dc, `the initialization names data center ${new DataView(plain.buffer).getInt16(60, true)} instead of ${this.m.dc}`);
        this.buf = cat(new Uint8Array(this.dec.update(this.buf.slice(64))));
      } else {
        const tag = this.m.protocol === "abridged" ? [0xef] : this.m.padded ? [0xdd, 0xdd, 0xdd, 0xdd] : [0xee, 0xee, 0xee, 0xee];
        if (this.buf.length < tag.length) return;
        check(tag.every((x, i) => this.buf[i] === x), "the connection starts with another protocol");
        this.buf = this.buf.slice(tag.length);
      }
      this.started = true;
    }
    for (;;) {
      let head: number, len: number;
      const d = this.buf;
      if (this.m.protocol === "abridged") {
        if (d.length < 1) return;
        check(d[0] <= 0x7f, "an abridged length byte above 0x7f");
        if (d[0] === 0x7f) {
          if (d.length < 4) return;
          head = 4;
          len = (d[1] + d[2] * 256 + d[3] * 65536) * 4;
          check(len >= 0x7f * 4, "a short packet with a long header");
        } else head = 1, len = d[0] * 4;
      } else {
        if (d.length < 4) return;
        head = 4;
        len = d[0] + d[1] * 256 + d[2] * 65536 + d[3] * 16777216;
      }
      if (d.length < head + len) return;
      this.frames.push(d.slice(head, head + len));
      this.buf = d.slice(head + len);
    }
  }
  frame(p: Uint8Array, pad: number): Uint8Array {
    const body = cat(p, new Uint8Array(pad).fill(0xa5));
    let h: Uint8Array;
    if (this.m.protocol === "abridged") {
      const n = body.length / 4;
      h = n < 0x7f ? new Uint8Array([n]) : new Uint8Array([0x7f, n & 255, (n >> 8) & 255, n >> 16]);
    } else h = new Uint8Array([body.length & 255, (body.length >> 8) & 255, (body.length >> 16) & 255, body.length >>> 24]);
    const out = cat(h, body);
    return this.enc ? new Uint8Array(this.enc.update(out)) : out;
  }
}

async function link(ctl: Ctl, m: Mode) {
  const pipe = new Pipe();
  const t: any = m.protocol === "abridged" ? new TransportAbridged(pipe as any, m.obfuscated) : new TransportIntermediate(pipe as any, { isObfuscated: m.obfuscated, isPadded: m.padded, secret: m.secret as any, dcId: m.dc });
  const s = new Server(m);
  await t.initialize();
  s.feed(pipe.take());
  check(s.started, "initialization does not announce the protocol");
  ctl.step(m.name);
  return { pipe, t, s };
}
let salt = 0;
const packet = (n: number) => {
  const b = new Uint8Array(n);
  let x = 12345 + n * 7 + salt++;
  for (let i = 0; i < n; i++) x = (Math.imul(x, 1103515245) + 12345) >>> 0, b[i] = x >>> 16;
  return b;
};
const eq = (a: Uint8Array, b: Uint8Array) => a.length === b.length && a.every((x, i) => x === b[i]);

async function exchange(ctl: Ctl, m: Mode, ops: { send: boolean; n: number; pad: number; cut: number }[]) {
  salt = 0;
  const { pipe, t, s } = await link(ctl, m);
  for (const o of ops) {
    const p = packet(o.n);
    ctl.step(`${o.send ? "send" : "receive"} ${o.n}`);
    if (o.send) {
      const given = p.slice();
      await t.send(given);
      check(eq(given, p), "sending changed the caller's packet");
      s.feed(pipe.take());
      check(s.frames.length === 1, () => `${s.frames.length} packets arrived for one sent (${s.buf.length} bytes left over)`);
      const f = s.frames.shift()!;
      check(s.buf.length === 0, "bytes left over after a packet");
      if (m.padded) check(f.length >= o.n && f.length < o.n + 16 && eq(f.slice(0, o.n), p), () => `a packet of ${o.n} bytes arrived as another of ${f.length}`);
      else check(eq(f, p), () => `a packet of ${o.n} bytes arrived as another of ${f.length}`);
      ctl.count("padding " + (f.length - o.n));
    } else {
      const pad = m.padded ? o.pad : 0;
      const wire = s.frame(p, pad);
      let got: Uint8Array | null = null;
      const r = t.receive().then((x: Uint8Array) => got = x);
      for (let at = 0; at < wire.length; at += o.cut) {
        await settle();
        check(got === null, "received a packet before it was complete");
        pipe.push(wire.slice(at, at + o.cut));
      }
      await settle();
      check(got !== null, "a complete packet is not received");
      await r;
      check(eq((got as any).slice(0, o.n), p) && (got as any).length === o.n + pad, () => `a packet of ${o.n} bytes was received as another of ${(got as any).length}`);
      check(pipe.queue.length === 0, "bytes left over after a packet");
    }
  }
  ctl.outcome(ops.map((o) => `${o.send ? "s" : "r"}${o.n}`).join());
}

const EDGE = [4, 8, 12, 16, 20, 500, 504, 508, 512, 1016, 1020, 1024, 1028, 262140, 262144, 0x40000 + 4, 1 << 20];
const SMALL = [4, 12, 20, 504, 508];

export default {
  id: "T01",
  level: "model_checking",
  rule: "every transport mode with every sequence of packets of the listed lengths in both directions, every prohibited start of the random initialization and every residue of the cipher stream; an execution is non-trivial when its sequence of packets is new",
  assumptions: ["the connection delivers bytes in order (checked by T02)", "AES and SHA-256 of the runtime are correct"],
  exhaustive: true,
  scenarios(tier) {
    const depth = tier === "thorough" ? 5 : 4;
    const out: Scenario[] = [];
    for (const m of MODES) {
      out.push({
        name: `${m.name}: sequences`,
        run(ctl) {
          const ops = Array.from({ length: depth }, (_, i) => {
            const k = ctl.free(SMALL.length * 2, "packet " + i);
            return { send: k % 2 === 0, n: SMALL[k >> 1], pad: 5 * i % 16, cut: 1 << 20 };
          });
          return exchange(ctl, m, ops);
        },
      });
      out.push({
        name: `${m.name}: lengths`,
        run(ctl) {
          const n = ctl.pick(EDGE, "length"), send = ctl.free(2, "direction") === 0, after = ctl.pick([4, 508], "next");
          return exchange(ctl, m, [{ send, n, pad: 3, cut: 1 << 22 }, { send, n: after, pad: 15, cut: 1 << 22 }, { send: !send, n: after, pad: 0, cut: 1 << 22 }]);
        },
      });
      out.push({
        name: `${m.name}: pieces and padding`,
        run(ctl) {
          const cut = ctl.pick([1, 2, 3, 5, 7], "piece"), pad = m.padded ? ctl.free(16, "padding") : 0;
          return exchange(ctl, m, [{ send: false, n: 20, pad, cut }, { send: false, n: 508, pad: 15 - pad, cut: 64 }, { send: false, n: 4, pad, cut }]);
        },
      });
      if (m.obfuscated) {
        out.push({
          name: `${m.name}: initializations`,
          async run(ctl) {
            // the first random numbers drawn must not be used as they are
            const bad: number[][] = [[0xef], [0x48, 0x45, 0x41, 0x44], [0x50, 0x4f, 0x53, 0x54], [0x47, 0x45, 0x54, 0x20], [0x4f, 0x50, 0x54, 0x49], [0x16, 3, 1, 2], [0xdd, 0xdd, 0xdd, 0xdd], [0xee, 0xee, 0xee, 0xee], [1, 2, 3, 4, 0, 0, 0, 0]];
            const list = Array.from({ length: ctl.free(3, "how many") }, () => ctl.pick(bad, "start"));
            const iv = ctl.pick([null, [0xff, 0xff, 0xff, 0xff], Array(16).fill(0xff)], "counter");
            let i = 0, drawn = 0;
            W.randomHook = (u) => {
              for (let k = 0; k < u.length; k++) u[k] = (k * 29 + 7 * ++drawn) & 255 || 1;
              if (u.length >= 56) {
                if (i < list.length) u.set(list[i++]);
                else if (iv) u.set(iv, 56 - iv.length), u.set(iv.slice().reverse(), 8);
              }
            };
            await exchange(ctl, m, [{ send: true, n: 504, pad: 0, cut: 1 << 20 }, { send: false, n: 504, pad: 3, cut: 1 << 20 }, { send: true, n: 1020, pad: 0, cut: 1 << 20 }, { send: false, n: 8192, pad: 0, cut: 1 << 20 }]);
          },
        });
        out.push({
          name: `${m.name}: overlapping sends`,
          async run(ctl) {
            salt = 0;
            const { pipe, t, s } = await link(ctl, m);
            const ps = Array.from({ length: 3 }, (_, i) => packet(ctl.pick([4, 20, 508], "length " + i)));
            const done = ps.map((p) => t.send(p));
            await Promise.all(done);
            s.feed(pipe.take());
            check(s.frames.length === 3 && s.buf.length === 0 && s.frames.every((f, i) => eq(f.slice(0, ps[i].length), ps[i])), "packets sent at once are garbled");
          },
        });
      }
    }
    out.push({
      name: "padded packets and error codes in a session",
      async run(ctl) {
        const pad = ctl.free(16, "padding"), code = ctl.pick([-404, -429, -444], "code");
        const r = new Rpc(ctl);
        await r.start();
        r.invoke();
        await settle();
        const link = r.net.live[0];
        const deliver = link.conn.deliver.bind(link.conn);
        link.conn.deliver = (l, b) => deliver(l, cat(b, new Uint8Array(pad).fill(7)));
        for (const m of r.answerable()) r.answer(m);
        await settle();
        check(r.calls[0].status === "ok", "an answer with padding is not understood");
        let seen: any = null;
        r.client.session.handlers.onTransportError = (e: any) => void (seen = e);
        link.conn.deliver(link, new Uint8Array(new Int32Array([code]).buffer));
        await settle();
        check(seen?.code === code, `a padded transport error ${code} is not understood`, "padded transport error not understood");
        const net = new Net();
        const s: any = new SessionPlain("2", { transportProvider: net.provider as any });
        await s.connect();
        const p = s.receive().then((x: Uint8Array) => x, (e: any) => e);
        net.live[0].conn.deliver(net.live[0], cat(new Uint8Array(new Int32Array([code]).buffer), new Uint8Array(pad).fill(7)));
        const e: any = await p;
        check(e?.code === code, `a padded transport error ${code} is not understood without encryption`, "padded transport error not understood");
        const q = s.receive();
        net.live[0].conn.deliver(net.live[0], cat(new Uint8Array(16).fill(1), new Uint8Array([8, 0, 0, 0]), new Uint8Array([1, 2, 3, 4, 5, 6, 7, 8]), new Uint8Array(pad).fill(7)));
        check(eq(await q, new Uint8Array([1, 2, 3, 4, 5, 6, 7, 8])), "an unencrypted packet with padding is not understood");
        ctl.outcome(`${pad} ${code}`);
      },
    });
    return out;
  },
} satisfies CheckDef;
