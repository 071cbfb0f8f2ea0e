// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, fail, type Scenario } from "../lib/explore.ts";
import { advance, settle, timers, turn, W } from "../lib/world.ts";
import { apiCodec, mtCodec, unwrap } from "../lib/rpc.ts";
import { badSalt, cat, ID, keyId, type Link, MtServer, Net, openEnvelope, pong, rpcError, rpcResult, sealEnvelope } from "../lib/mt.ts";
import { be, bindProblem, FINGERPRINT, HsServer, type HsOptions, le, PRIME, publicKeys } from "../lib/handshake.ts";
import { Bytes, Rd, same, show } from "../lib/tl.ts";
import { ClientPlain } from "/repo/client/1_client_plain.ts";
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";
void [sealEnvelope, mtCodec, turn];

type Draws = Partial<Record<16 | 32 | 256, Uint8Array[]>>;
/** Serve the first draws of the given sizes from a list; small exponents keep the rest cheap. */
function draws(d: Draws) {
  const q: Record<number, Uint8Array[]> = {};
  for (const [k, v] of Object.entries(d)) q[Number(k)] = v!.slice();
  let x = 12345;
  W.randomHook = (u) => {
    const v = q[u.length]?.shift();
    if (v) return void u.set(v);
    for (let i = 0; i < u.length; i++) x = (Math.imul(x, 1103515245) + 12345) >>> 0, u[i] = x >>> 16;
    if (u.length === 256) u.fill(0, 4); // an exponent of 32 bits
  };
}
const fill = (n: number, b: number) => new Uint8Array(n).fill(b);
const num = (n: number, v: number) => le(BigInt(v), n);

async function plain(opt: HsOptions, d: Draws, dc = "2", isMedia = false) {
  draws(d);
  const net = new Net();
  const hs = new HsServer(opt);
  net.onPacket = (l, b) => hs.receive(l, b);
  const c = new ClientPlain(dc as any, { transportProvider: net.provider as any, publicKeys, isMedia } as any);
  let out: [Uint8Array, bigint] | null = null, err: any = null, done = false;
  await c.connect();
  c.createAuthKey(opt.temporary ?? false).then((v) => (out = v as any, done = true), (e) => (err = e, done = true));
  for (let i = 0; i < 50 && !done; i++) await settle();
  c.disconnect();
  await settle();
  W.randomHook = null;
  return { out: out as [Uint8Array, bigint] | null, err, hs, net, done };
}
const agrees = (out: [Uint8Array, bigint], hs: HsServer) => hs.keys.some((k) => same(k.key, out[0]) && k.salt === out[1]);

// ---- honest servers
const primes: [bigint, bigint][] = [[3n, 5n], [3n, 83n], [257n, 65537n], [251n, 16777213n], [1229739323n, 1402015859n], [2147483629n, 2147483647n], [4294967279n, 4294967291n], [3n, 4294967291n], [65537n, 2147483647n]];
const shapes16 = [null, fill(16, 0), fill(16, 0xFF), num(16, 1), cat(fill(15, 0), Uint8Array.of(0x80)), cat(fill(15, 0xFF), Uint8Array.of(0x7F)), cat(fill(8, 0x11), fill(8, 0))];
const shapes32 = [null, fill(32, 0), fill(32, 0xFF), num(32, 1), cat(fill(31, 0), Uint8Array.of(0x80)), cat(fill(24, 9), fill(8, 0)), cat(fill(8, 0xFF), fill(24, 1))];
const sNonces = [undefined, 0n, -1n, 1n, -(1n << 127n), (1n << 127n) - 1n, 0xFFn << 56n];
const exps: { a?: bigint; b?: Uint8Array[] }[] = [{}, { b: [num(256, 3071)] }, { a: 5003n, b: [num(256, 3189)] }, { a: 5003n, b: [num(256, 3465)] }, { a: 2197n }, { b: [fill(256, 0)] }, { b: [num(256, 1)] }, { b: [fill(256, 0), num(256, 2), num(256, 900)] }, { b: [fill(256, 0xFF)] }, { b: [be((PRIME - 1n) / 2n, 256).reverse()] }];
const fps = [[FINGERPRINT], [7n, FINGERPRINT], [FINGERPRINT, 7n], [-1n, 0n, FINGERPRINT]];
const dcs: [string, boolean, number][] = [["2", false, 2], ["1", true, -1], ["3-test", false, 10003], ["5-test", true, -10005]];

async function honest(ctl: Ctl, what: string) {
  const opt: HsOptions = { dcId: 2, temporary: ctl.free(2, "kind") === 1 };
  const d: Draws = {};
  let dc = dcs[0];
  if (what === "nonces") {
    const n = ctl.pick(shapes16, "nonce");
    if (n) d[16] = [n];
    const m = ctl.pick(shapes32, "new nonce");
    if (m) d[32] = [m];
    opt.serverNonce = ctl.pick(sNonces, "server nonce");
  } else if (what === "numbers") {
    [opt.p, opt.q] = ctl.pick(primes, "pq");
    const e = ctl.pick(exps, "exponents");
    opt.a = e.a;
    if (e.b) d[256] = e.b;
  } else {
    dc = ctl.pick(dcs, "dc");
    opt.dcId = dc[2];
    opt.g = ctl.pick([3, 4, 5, 7], "g");
    opt.fingerprints = ctl.pick(fps, "fingerprints");
    // different temporary keys of the RSA padding, some of which exceed the modulus
    d[32] = [fill(32, 5), ...Array.from({ length: 9 }, (_, i) => fill(32, i * 29 + ctl.trace.length))];
  }
  const r = await plain(opt, d, dc[0], dc[1]);
  ctl.step("exchange");
  r.net.checkViolation();
  check(r.done, "the exchange with an honest server does not end");
  check(r.out, () => `the exchange with an honest server fails: ${show(r.err)}`, "an honest exchange fails");
  check(agrees(r.out!, r.hs), "client and server end with different keys or salts");
  check(r.out![0].length === 256, "the key is not 256 bytes long");
  ctl.count("cases");
  ctl.state(`${what} ${ctl.trace.map((c) => c.pick)}`);
  ctl.outcome(`${ctl.trace.map((c) => c.pick)}`);
}

// ---- wrong answers
const bad: [string, HsOptions["tamper"]][] = [];
const flip = (v: bigint, i: number) => BigInt.asIntN(128, v ^ (1n << BigInt(i)));
for (const bit of [0, 7, 63, 64, 100, 127]) {
  bad.push([`resPQ.nonce bit ${bit}, always`, (k, o) => k === "resPQ" ? { ...o, nonce: flip(o.nonce, bit) } : o]);
  bad.push([`params.nonce bit ${bit}`, (k, o) => k === "params" ? { ...o, nonce: flip(o.nonce, bit) } : o]);
  bad.push([`params.server_nonce bit ${bit}`, (k, o) => k === "params" ? { ...o, server_nonce: flip(o.server_nonce, bit) } : o]);
  bad.push([`inner.nonce bit ${bit}`, (k, o) => k === "inner" ? { ...o, nonce: flip(o.nonce, bit) } : o]);
  bad.push([`inner.server_nonce bit ${bit}`, (k, o) => k === "inner" ? { ...o, server_nonce: flip(o.server_nonce, bit) } : o]);
  bad.push([`gen.nonce bit ${bit}`, (k, o) => k === "gen" ? { ...o, nonce: flip(o.nonce, bit) } : o]);
  bad.push([`gen.server_nonce bit ${bit}`, (k, o) => k === "gen" ? { ...o, server_nonce: flip(o.server_nonce, bit) } : o]);
  bad.push([`gen.new_nonce_hash1 bit ${bit}`, (k, o) => k === "gen" ? { ...o, new_nonce_hash1: flip(o.new_nonce_hash1, bit) } : o]);
}
const LOW = 1n << BigInt(2048 - 64);
for (const [n, v] of [["0", 0n], ["1", 1n], ["2", 2n], ["p-1", PRIME - 1n], ["p", PRIME], ["p+1", PRIME + 1n], ["2^1983", LOW >> 1n], ["2^1984-1", LOW - 1n], ["p-2^1983", PRIME - (LOW >> 1n)], ["2^2048-1", (1n << 2048n) - 1n]] as [string, bigint][]) {
  if (n === "2^1984-1") continue; // conforming clients differ in how they count bits
  bad.push([`g_a = ${n}`, (k, o) => k === "inner" ? { ...o, g_a: be(v, 256) } : o]);
}
for (const [n, v] of [["composite", PRIME - 2n], ["small prime", 1000003n], ["1", 1n], ["even", PRIME - 1n], ["double", PRIME * 2n]] as [string, bigint][]) bad.push([`dh_prime ${n}`, (k, o) => k === "inner" ? { ...o, dh_prime: be(v, n === "double" ? 257 : 256) } : o]);
for (const g of [0, 1, 2, 6, 8, -3]) bad.push([`g = ${g}`, (k, o) => k === "inner" ? { ...o, g } : o]);
bad.push(["dh_gen_retry", (k, o) => k === "gen" ? { _: "dh_gen_retry", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash2: o.$(2) } : o]);
bad.push(["dh_gen_fail", (k, o) => k === "gen" ? { _: "dh_gen_fail", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash3: o.$(3) } : o]);
bad.push(["hash of dh_gen_retry in dh_gen_ok", (k, o) => k === "gen" ? { ...o, new_nonce_hash1: o.$(2) } : o]);
bad.push(["unknown fingerprints only", (k, o) => k === "resPQ" ? { ...o, server_public_key_fingerprints: [5n, 6n] } : o]);
bad.push(["no fingerprints", (k, o) => k === "resPQ" ? { ...o, server_public_key_fingerprints: [] } : o]);
bad.push(["first answer repeated as the second", (k, o) => k === "params" ? { _: "resPQ", nonce: o.nonce, server_nonce: o.server_nonce, pq: Uint8Array.of(15), server_public_key_fingerprints: [FINGERPRINT] } : o]);
const badHash: [string, (b: Uint8Array) => Uint8Array][] = [];
for (let i = 0; i < 20; i++) badHash.push([`hash byte ${i}`, (b) => (b = b.slice(), b[i] ^= 1 << (i & 7), b)]);
badHash.push(["hash covers other data", (b) => (b = b.slice(), b[300] ^= 1, b)]);

async function wrong(ctl: Ctl) {
  const i = ctl.free(bad.length + badHash.length, "alteration");
  const temporary = ctl.free(2, "kind") === 1;
  const [name, f] = i < bad.length ? bad[i] : badHash[i - bad.length];
  const r = await plain({ dcId: 2, temporary, ...(i < bad.length ? { tamper: f as any } : { tamperPlain: f as any }) }, {});
  ctl.step(name);
  check(r.done, () => `${name}: the exchange does not end`, "a refused exchange does not end");
  check(!r.out, () => `the client accepts a wrong answer (${name})`, `accepted: ${name}`);
  ctl.count("cases");
  ctl.state(name + temporary);
  ctl.outcome(`${name} ${r.err?.message}`);
}

async function flipped(ctl: Ctl, n: number, lengths: number[]) {
  const byte = ctl.free(lengths[n], "byte"), mask = ctl.pick([0x01, 0x80, 0xFF], "mask");
  const r = await plain({ dcId: 2, temporary: false, p: 3n, q: 83n, tamperPacket: (k, b) => (k === n && byte < b.length ? (b = b.slice(), b[byte] ^= mask, b) : b) }, {});
  ctl.step(`packet ${n} byte ${byte}`);
  check(r.done, "the exchange does not end after an altered packet");
  if (r.out) check(agrees(r.out, r.hs), () => `byte ${byte} of packet ${n} altered: the client accepts a key the server does not share`, "accepted a key the server does not share");
  if (n > 0 && byte >= 20 && byte < lengths[n]) {
    const harmless = n === 1 && byte === 56; // another form of the length of a byte string
    if (!harmless) check(!r.out, () => `byte ${byte} of answer ${n} altered (mask ${mask}), and the client accepts it`, "accepted an altered answer");
  }
  ctl.count("cases");
  ctl.state(`${n} ${byte} ${mask}`);
  ctl.outcome(`${n} ${byte} ${mask} ${!!r.out}`);
}

// ---- the whole client, with faults
interface FaultCfg {
  pfs: boolean;
  steps: number;
  acts: string[];
}
async function faults(ctl: Ctl, cfg: FaultCfg) {
  draws({});
  const net = new Net();
  const queue: { link: Link; b: Uint8Array }[] = [];
  const on = (a: string) => cfg.acts.includes(a);
  let spoil: "" | "gen" | "inner" = "";
  const hs = new HsServer({
    dcId: 2,
    temporary: cfg.pfs ? null : false,
    tamper: (k, o) => {
      if (k === "gen" && spoil === "gen") return spoil = "", { _: "dh_gen_retry", nonce: o.nonce, server_nonce: o.server_nonce, new_nonce_hash2: o.$(2) };
      if (k === "inner" && spoil === "inner") return spoil = "", { ...o, nonce: flip(o.nonce, 3) };
      return o;
    },
  });
  const servers = new Map<bigint, MtServer>();
  const bound = new Map<bigint, bigint>(); // temporary key -> permanent key
  const forgotten = new Set<bigint>();
  let binds = 0, badBinds = 0;
  const answered: number[] = [];
  const inited = new Set<bigint>();
  const push = (link: Link, b: Uint8Array) => queue.push({ link, b });
  net.onLink = (l) => {
    // answers go through the explorer
    (l as any).direct = (l.conn as any).direct ??= l.conn.deliver.bind(l.conn);
    l.conn.deliver = (link: Link, b: Uint8Array) => void push(link, b);
  };
  net.onPacket = (link, b) => {
    const kid = new Rd(b).i64();
    if (kid === 0n) {
      hs.receive(link, b);
      if (hs.refusals.length) fail(`the server refuses: ${hs.refusals[0]}`);
      return;
    }
    let s = servers.get(kid);
    if (forgotten.has(kid)) return void push(link, new Bytes().u32(-404).done());
    if (!s) {
      const k = hs.keys.find((k) => keyId(k.key) === kid);
      check(k, "the client uses a key the server does not know");
      s = new MtServer(k.key);
      s.salt = k.salt;
      s.exactSeq = false;
      servers.set(kid, s);
    }
    const plain = openEnvelope(s.key, b);
    const ms = s.receive(link, b);
    if (plain.salt !== s.salt) {
      if (!everDisconnected || plain.salt !== 0n) fail(`the client uses salt ${plain.salt} with a new key, agreed was ${s.salt}`, "wrong salt with a new key");
      const m = ms[0];
      return void push(link, s.seal(m.sessionId, badSalt(m.container ?? m.msgId, m.seqno, s.salt), { content: false }));
    }
    for (const m of ms) {
      if (m.id === ID.ack) continue;
      if (m.id === ID.pingDelay) {
        push(link, s.seal(m.sessionId, pong(m.msgId, new Rd(m.body.subarray(4)).i64())));
        continue;
      }
      const w = unwrap(m.body);
      const perm = hs.keys.find((k) => keyId(k.key) === kid)!;
      if (w.query._ === "auth.bindTempAuthKey") {
        binds++;
        check(perm.temporary, "auth.bindTempAuthKey was sent under a permanent key");
        const q = w.query;
        const pk = hs.keys.find((k) => !k.temporary && keyId(k.key) === q.perm_auth_key_id);
        check(pk, "bindTempAuthKey names an unknown permanent key");
        const why = bindProblem(pk!.key, q, kid, m);
        if (why) {
          badBinds++;
          ctl.note(`bind refused: ${why}`);
          push(link, s.seal(m.sessionId, rpcResult(m.msgId, rpcError(400, "ENCRYPTED_MESSAGE_INVALID"))));
          fail(`the binding message is invalid: ${why}`, `invalid binding: ${why}`);
        }
        bound.set(kid, q.perm_auth_key_id);
        push(link, s.seal(m.sessionId, rpcResult(m.msgId, new Bytes().u32(0x997275b5).done())));
        continue;
      }
      if (cfg.pfs && !bound.has(kid)) fail("a request was sent under a temporary key before it was bound", "request before binding");
      if (w.init === null && !inited.has(kid)) {
        if (!forgotten.size) fail("the first request is not wrapped in initConnection", "not initialized");
        push(link, s.seal(m.sessionId, rpcResult(m.msgId, rpcError(400, "CONNECTION_NOT_INITED"))));
        continue;
      }
      inited.add(kid);
      answered.push(1);
      push(link, s.seal(m.sessionId, rpcResult(m.msgId, apiCodec.encode({ _: "help.deepLinkInfo", message: w.query.path }))));
    }
  };
  const client: any = new ClientEncrypted("2", 1, { transportProvider: net.provider as any, publicKeys, isPerfectForwardSecrecyEnabled: cfg.pfs } as any);
  let wanted = true, everDisconnected = false;
  let conn: string | null = null;
  const connect = () => {
    wanted = true;
    conn = null;
    const me = ++gen;
    client.connect().then(() => me === gen && (conn = "ok"), (e: any) => me === gen && (conn = e.message));
  };
  let gen = 0, again = 0;
  const deliver = () => {
    const { link, b } = queue.shift()!;
    if (link.open) (link as any).direct(link, b);
  };
  net.autoOpen = false;
  ctl.step("connect");
  connect();
  await settle();
  for (let i = 0; i < cfg.steps; i++) {
    const a: [string, () => void | Promise<void>][] = [];
    while (queue.length && !queue[0].link.open) queue.shift();
    if (net.pendingOpens.length) a.push(["accept", () => void net.pendingOpens[0].accept()]);
    if (queue.length) a.push([`deliver`, deliver]);
    if (!a.length && conn !== null && !(on("again") && client.isDisconnected)) a.push(["end", () => {}]);
    if (!a.length) a.push(["timer", () => advance(Math.max(0, (timers()[0]?.at ?? W.now + 1000) - W.now))]);
    if (net.pendingOpens.length && on("refuse")) a.push(["refuse", () => net.pendingOpens[0].refuse()]);
    if (net.live[0] && on("drop")) a.push(["drop", () => net.live[0].conn.drop(net.live[0])]);
    if (net.live[1] && on("drop")) a.push(["drop second", () => net.live[1].conn.drop(net.live[1])]);
    if (on("spoil") && !spoil && hs.packets < 8) a.push(["dh_gen_retry next", () => void (spoil = "gen")], ["wrong nonce next", () => void (spoil = "inner")]);
    if (on("disconnect")) {
      if (wanted) {
        a.push(["disconnect", () => {
          wanted = false;
          everDisconnected = true;
          client.disconnect();
        }]);
      } else a.push(["connect", connect]);
    }
    if (on("again") && wanted && again < 2) {
      a.push(["connect again", () => {
        again++;
        client.connect().catch(() => {});
      }]);
    }
    if (on("tick") && (queue.length || net.pendingOpens.length)) {
      const [name, f] = a[0];
      a.push([`${name} while time passes`, () => {
        W.digestGate = (r) => (W.now += 250, Promise.resolve(r)); // every hash takes a while
        return f();
      }]);
    }
    if (on("forget") && cfg.pfs && bound.size && !forgotten.size) a.push(["server forgets temporary keys", () => bound.forEach((_, k) => forgotten.add(k))]);
    const k = ctl.choose(a.length, a.map((x) => x[0]).join("|"));
    if (a[k][0] === "end") break;
    ctl.step(a[k][0]);
    await a[k][1]();
    await settle();
    net.checkViolation();
    W.digestGate = null;
    ctl.state(JSON.stringify([net.live.length, net.pendingOpens.length, queue.length, hs.packets, hs.keys.length, wanted, conn, client.isConnected, binds, answered.length]));
  }
  // a fair environment
  const pump = async (n: number) => {
    for (let i = 0; i < n; i++) {
      await settle();
      if (net.pendingOpens.length) net.pendingOpens[0].accept();
      else if (queue.length) deliver();
      else return;
    }
    await settle();
  };
  if (!wanted) {
    await pump(300);
    await advance(200_000);
    net.checkViolation();
    check(!client.isConnected && net.live.length === 0 && net.pendingOpens.length === 0, "after the application disconnected during the key exchange, a connection is or becomes open", "connected after disconnect");
    connect();
  }
  for (let i = 0; i < 14 && !(conn === "ok" && client.isConnected); i++) {
    await pump(400);
    await advance(5000);
    if (conn !== null && conn !== "ok") connect();
  }
  net.checkViolation();
  check(conn === "ok", () => `connect() ${conn === null ? "never settles" : `fails: ${conn}`} although the network and the server work again`, "connect does not succeed in a fair environment");
  let value: any = null;
  client.invoke({ _: "help.getDeepLinkInfo", path: "x" }).then((v: any) => value = v, (e: any) => value = e);
  for (let i = 0; i < 6 && !value; i++) await pump(200), await advance(2000);
  net.checkViolation();
  if (forgotten.size && value instanceof Error) {
    // the call that met the forgotten key may fail; the next one may not
    value = null;
    client.invoke({ _: "help.getDeepLinkInfo", path: "x" }).then((v: any) => value = v, (e: any) => value = e);
    for (let i = 0; i < 6 && !value; i++) await pump(200), await advance(2000);
    net.checkViolation();
  }
  check(value?.message === "x" && value._ === "help.deepLinkInfo", () => `a call after connecting gives ${show(value)}`, "a call after connecting fails");
  const perm = hs.keys.find((k) => same(k.key, client.authKey));
  check(perm && !perm.temporary, "client.authKey is not a permanent key the server knows");
  if (cfg.pfs) check([...bound.values()].includes(keyId(perm!.key)), "no temporary key is bound to the permanent key");
  check(W.unhandled.length === 0, () => `unhandled rejection: ${show(W.unhandled[0])} ${(W.unhandled[0] as any)?.stack ?? ""}`, "unhandled rejection");
  ctl.outcome(JSON.stringify([hs.packets, hs.keys.length, binds, badBinds, conn]));
  client.disconnect();
  await settle();
}

export default {
  id: "R06",
  level: "fault_enumeration",
  rule: "honest exchanges for all combinations of boundary values of nonces, exponents, pq, data centers and padding keys; every listed wrong field and every altered byte of every answer; every sequence of losses, refusals, failed attempts, clock ticks and application disconnects within the deviation budget",
  assumptions: ["SHA-1, SHA-256, RSA and AES-IGE of the model server are node:crypto's and tgcrypto's"],
  exhaustive: true,
  scenarios(tier) {
    const th = tier === "thorough";
    const s: Scenario[] = [
      { name: "honest: nonces", shard: true, run: (c) => honest(c, "nonces") },
      { name: "honest: numbers", shard: true, run: (c) => honest(c, "numbers") },
      { name: "honest: data centers", shard: true, run: (c) => honest(c, "other") },
      { name: "wrong answers", shard: true, run: wrong },
    ];
    const lengths = [100, 652, 72];
    lengths.forEach((_, n) => s.push({ name: `altered packet ${n}`, shard: true, run: (c) => flipped(c, n, lengths) }));
    const mk = (name: string, budget: number, cfg: FaultCfg) => s.push({ name, budget: budget + (th ? 1 : 0), shard: true, run: (c) => faults(c, cfg) });
    mk("client: losses and refusals", 2, { pfs: false, steps: 24, acts: ["drop", "refuse"] });
    mk("client: failed attempts", 2, { pfs: false, steps: 24, acts: ["spoil", "drop"] });
    mk("client: application disconnects", 2, { pfs: false, steps: 24, acts: ["disconnect"] });
    mk("client with PFS: losses and refusals", 1, { pfs: true, steps: 40, acts: ["drop", "refuse", "spoil"] });
    mk("client with PFS: application disconnects", 1, { pfs: true, steps: 40, acts: ["disconnect"] });
    mk("client with PFS: connecting again", 2, { pfs: true, steps: 40, acts: ["again", "drop"] });
    mk("client with PFS: clock and forgotten keys", 2, { pfs: true, steps: 40, acts: ["tick", "forget", "refuse"] });
    return s;
  },
} satisfies CheckDef;
