// A model server's side of the authorization key exchange. It validates everything the
// client sends and reports what it agreed on.
// deno-lint-ignore-file no-explicit-any
import { W } from "./world.ts";
import { Bytes, Rd, same } from "./tl.ts";
import { cat, igeDec, igeEnc, keyId, type Link, sha1, sha256 } from "./mt.ts";
import { mtCodec } from "./rpc.ts";
import { check } from "./explore.ts";

export const RSA_N = BigInt("0x9d531c886c79d7bf972178ae01b84aa404aa7fc8e5de96bc28af9d6a774bcf8b55c54edb37597d7ad874cf32ddc57f179d96ac9cf9fcef7e63e745e1322367814bc4b5b4865a1c0658990c11f77f48b433f10968f805540b3172df5ee6b4c1ff56c485df014d67ff9cfd754613264827c4c9c56e9367df73157753f36c24f37bbbf283d0beec81ff79cff52ffeb6c92113e59cb4d25c876a8320c686d32b4210b0f3c699c13d38a4c6b91c3ee90f11d9a918f64e51566e8e200ad2aef3237abab552db92526a06b2bb91fd10f3a533f91f309b80ef0be5a91bf5d6eceba828a717af9e78fb05ebf973690896572efdd1584eafc7454ef3014c5fe262fbd903b5");
const RSA_D = BigInt("0x0e221ac498b6236f27450f01d6ceb709e00f6f165dac2eef6d5a45727c90176f857f89b380d7edc15cf3b56f74e3daa484f835be8e68ae1d351d6036385a5ce08d2d794363f47163128f813995f9ddceae81df5e0a35f45463175640c0ca094986827622500c23a51f75d794b980ad67c1327d258f617bfdeb364298f224a9a8d65f5a2fc05b30ef8be71aea7aaf8a4119a38aa9bed9a197b92ec8e592cde1f72ab1b23f8590839a5e1e24639823906f382f1e128edb635cead18fd444f32e3374599fde4e25bf2f3c93e34deeecc6b769b4ccced8ba4571fdd1e23c6d3dcc4a457aa9d7a7a8670a181420e7c5c51cd0c4a5ecafbddd02487717bea9400e90d1");
export const FINGERPRINT = 0x5EED5EED5EED5EEDn;
export const publicKeys = [[1n, [RSA_N - 2n, 65537n]], [FINGERPRINT, [RSA_N, 65537n]]] as any;
export const PRIME = BigInt(
  "0xC71CAEB9C6B1C9048E6C522F70F13F73980D40238E3E21C14934D037563D930F48198A0AA7C14058229493D22530F4DBFA336F6E0AC925139543AED44CCE7C3720FD51F69458705AC68CD4FE6B6B13ABDC9746512969328454F18FAF8C595F642477FE96BB2A941D5BCD1D4AC8CC49880708FA9B378E3C4F3A9060BEE67CF9A4A4A695811051907E162753B56B0F6B410DBA74D8A84B2A14B3144E0EF1284754FD17ED950D5965B4B9DD46582DB1178D169C6BC465B0D6FF9CA3928FEF5B9AE4E418FC15E83EBEA0F87FA9FF5EED70050DED2849F47BF959D956850CE929851F0D8115F635B105EE2E4E15D04B2454BF6F4FADF034B10403119CD8E3B92FCC5B",
);
export function modPow(a: bigint, b: bigint, n: bigint) {
  // 4-bit window
  a %= n;
  const t = [1n];
  for (let i = 1; i < 16; i++) t.push(t[i - 1] * a % n);
  let r = 1n;
  for (const d of b.toString(16)) {
    r = r * r % n;
    r = r * r % n;
    r = r * r % n;
    r = r * r % n;
    const k = parseInt(d, 16);
    if (k) r = r * t[k] % n;
  }
  return r;
}
export const be = (n: bigint, len: number) => {
  const b = new Uint8Array(len);
  for (let i = len - 1; i >= 0; i--) b[i] = Number(n & 255n), n >>= 8n;
  return b;
};
export const ube = (b: Uint8Array) => {
  let v = 0n;
  for (const x of b) v = (v << 8n) | BigInt(x);
  return v;
};
export const le = (n: bigint, len: number) => new Bytes().big(n, len).done();
const GOOD_MIN = 1n << BigInt(2048 - 64);
export const goodG = (x: bigint, p: bigint) => x >= GOOD_MIN && x <= p - GOOD_MIN;

export interface HsOptions {
  dcId: number;
  temporary: boolean | null;
  p?: bigint;
  q?: bigint;
  serverNonce?: bigint;
  a?: bigint;
  g?: number;
  fingerprints?: bigint[];
  serverTime?: number;
  /** changes an answer before it is packed */
  tamper?: (kind: "resPQ" | "params" | "inner" | "gen", o: any) => any;
  /** changes the plain text of the DH answer (with its hash) before it is encrypted */
  tamperPlain?: (b: Uint8Array) => Uint8Array;
  /** changes a whole packet on its way to the client */
  tamperPacket?: (n: number, b: Uint8Array) => Uint8Array | null;
}
interface Hs {
  stage: number;
  nonce: bigint;
  serverNonce: bigint;
  newNonce: bigint;
  a: bigint;
  key?: Uint8Array<ArrayBuffer>;
  lastMsgId: bigint;
  aborted?: string;
}

export class HsServer {
  opt: HsOptions;
  sessions = new Map<Link, Hs>();
  /** keys agreed on, in order */
  keys: { key: Uint8Array<ArrayBuffer>; salt: bigint; temporary: boolean; newNonce: bigint; serverNonce: bigint }[] = [];
  packets = 0;
  /** what an honest server noticed and dropped the connection for */
  refusals: string[] = [];
  constructor(opt: HsOptions) {
    this.opt = opt;
  }
  /** Handle a packet with a zero key identifier. Throws a violation when the client is wrong (only when nothing was tampered with). */
  receive(link: Link, b: Uint8Array) {
    const r = new Rd(b);
    check(r.i64() === 0n, "a plain message carries a key identifier");
    const id = r.i64();
    const len = r.u32();
    const body = r.raw(len);
    check(r.left === 0, "a plain message has trailing bytes");
    check(id % 4n === 0n, "a plain message identifier is not divisible by 4");
    let s = this.sessions.get(link);
    if (!s) this.sessions.set(link, s = { stage: 0, nonce: 0n, serverNonce: 0n, newNonce: 0n, a: 0n, lastMsgId: 0n });
    check(id > s.lastMsgId, "a plain message identifier does not increase");
    s.lastMsgId = id;
    const o = mtCodec.decode(body);
    try {
      this.#handle(link, s, o);
    } catch (e) {
      if (!this.opt.tamper && !this.opt.tamperPlain && !this.opt.tamperPacket) throw e;
      this.refusals.push(String((e as Error).message));
      link.conn.deliver(link, new Bytes().u32(-404).done());
    }
  }
  #reply(link: Link, o: any) {
    const body = mtCodec.encode(o);
    let p: Uint8Array | null = new Bytes().i64(0n).i64((BigInt(Math.floor(W.now / 1000)) << 32n) + BigInt(this.packets * 4) + 1n).u32(body.length).raw(body).done();
    const n = this.packets++;
    if (this.opt.tamperPacket) p = this.opt.tamperPacket(n, p);
    if (p) link.conn.deliver(link, p);
  }
  #handle(link: Link, s: Hs, o: any) {
    const t = this.opt.tamper ?? ((_k: string, x: any) => x);
    const p = this.opt.p ?? 1229739323n, q = this.opt.q ?? 1402015859n;
    const pq = be(p * q, 8);
    const pqBytes = pq.subarray(pq.findIndex((x) => x !== 0));
    if (o._ === "req_pq_multi") {
      s.stage = 1;
      s.nonce = o.nonce;
      s.serverNonce = this.opt.serverNonce ?? 0x1234567890ABCDEF1122334455667788n;
      const fps = this.opt.fingerprints ?? [FINGERPRINT];
      return this.#reply(link, t("resPQ", { _: "resPQ", nonce: o.nonce, server_nonce: s.serverNonce, pq: pqBytes, server_public_key_fingerprints: fps }));
    }
    if (o._ === "req_DH_params") {
      check(s.stage === 1, "req_DH_params out of turn");
      check(o.nonce === s.nonce && o.server_nonce === s.serverNonce, "req_DH_params carries other nonces");
      check(ube(o.p) === p && ube(o.q) === q, () => `pq was factorized to ${ube(o.p)} and ${ube(o.q)}, not ${p} and ${q}`, "pq is factorized wrongly");
      check(o.public_key_fingerprint === FINGERPRINT, "another public key than the known one was chosen");
      check(o.encrypted_data.length === 256, "encrypted_data is not 256 bytes long");
      const c = ube(o.encrypted_data);
      check(c < RSA_N, "encrypted_data exceeds the modulus");
      const m = be(modPow(c, RSA_D, RSA_N), 256);
      const enc = m.subarray(32);
      const h = sha256(enc);
      const tempKey = m.subarray(0, 32).map((v, i) => v ^ h[i]);
      const plain = igeDec(enc, tempKey, new Uint8Array(32));
      const padded = plain.slice(0, 192).reverse();
      const hash = sha256(tempKey, padded);
      check(hash.every((v, i) => v === plain[192 + i]), "RSA_PAD: wrong hash");
      const inner = mtCodec.decode(padded);
      const want = this.opt.temporary === null ? inner._ === "p_q_inner_data_temp_dc" : this.opt.temporary;
      check(inner._ === (want ? "p_q_inner_data_temp_dc" : "p_q_inner_data_dc"), () => `inner data is a ${inner._}`, "wrong constructor of inner data");
      check(inner.nonce === s.nonce && inner.server_nonce === s.serverNonce, "inner data carries other nonces");
      check(ube(inner.pq) === p * q && ube(inner.p) === p && ube(inner.q) === q, "inner data carries another pq");
      check(inner.dc === this.opt.dcId, () => `inner data is for data center ${inner.dc}, not ${this.opt.dcId}`, "inner data names another data center");
      if (want) check(inner.expires_in > 0 && inner.expires_in <= 86_400, "expires_in");
      s.newNonce = inner.new_nonce;
      s.stage = 2;
      (s as any).temporary = want;
      s.a = this.opt.a ?? 0xABCDEF0123456789n ** 31n;
      const g = this.opt.g ?? 3;
      const gA = modPow(BigInt(g), s.a, PRIME);
      const innerAnswer = t("inner", { _: "server_DH_inner_data", nonce: s.nonce, server_nonce: s.serverNonce, g, dh_prime: be(PRIME, 256), g_a: be(gA, 256), server_time: this.opt.serverTime ?? Math.floor(W.now / 1000) });
      const data = mtCodec.encode(innerAnswer);
      let full = cat(sha1(data), data);
      full = cat(full, new Uint8Array((16 - full.length % 16) % 16).fill(0x5A));
      if (this.opt.tamperPlain) full = this.opt.tamperPlain(full) as any;
      const { key, iv } = this.tmp(s);
      return this.#reply(link, t("params", { _: "server_DH_params_ok", nonce: s.nonce, server_nonce: s.serverNonce, encrypted_answer: igeEnc(full, key, iv) }));
    }
    check(o._ === "set_client_DH_params", () => `unexpected ${o._}`);
    check(s.stage === 2, "set_client_DH_params out of turn");
    check(o.nonce === s.nonce && o.server_nonce === s.serverNonce, "set_client_DH_params carries other nonces");
    const { key, iv } = this.tmp(s);
    check(o.encrypted_data.length % 16 === 0, "set_client_DH_params: not a whole number of blocks");
    const plain = igeDec(o.encrypted_data, key, iv);
    const r = new Rd(plain);
    const h = r.raw(20);
    const inner = mtCodec.boxed(r);
    check(r.left < 16, "set_client_DH_params: too much padding");
    const hh = sha1(plain.slice(20, plain.length - r.left));
    check(h.every((v, i) => v === hh[i]), "set_client_DH_params: wrong hash");
    check(inner._ === "client_DH_inner_data" && inner.nonce === s.nonce && inner.server_nonce === s.serverNonce && inner.retry_id === 0n, "client_DH_inner_data");
    const gB = ube(inner.g_b);
    check(goodG(gB, PRIME), "g_b is out of range");
    const shared = be(modPow(gB, s.a, PRIME), 256);
    s.key = shared as Uint8Array<ArrayBuffer>;
    s.stage = 3;
    const nn = le(s.newNonce, 32), sn = le(s.serverNonce, 16);
    const salt = new Rd(nn.slice(0, 8).map((v, i) => v ^ sn[i])).i64();
    this.keys.push({ key: s.key, salt, temporary: (s as any).temporary, newNonce: s.newNonce, serverNonce: s.serverNonce });
    const aux = sha1(s.key).subarray(0, 8);
    const nnh = (k: number) => new Rd(sha1(cat(nn, Uint8Array.of(k), aux)).subarray(4, 20)).big(16);
    this.#reply(link, t("gen", { _: "dh_gen_ok", nonce: s.nonce, server_nonce: s.serverNonce, new_nonce_hash1: nnh(1), $: nnh }));
  }
  tmp(s: Hs) {
    const nn = le(s.newNonce, 32), sn = le(s.serverNonce, 16);
    const a = sha1(nn, sn), b = sha1(sn, nn), c = sha1(nn, nn);
    return { key: cat(a, b.subarray(0, 12)), iv: cat(b.subarray(12, 20), c, nn.subarray(0, 4)) };
  }
}

/** auth.bindTempAuthKey: the inner message sealed with MTProto 1.0 under the permanent key. */
export function bindProblem(perm: Uint8Array, q: any, tempKeyId: bigint, m: { msgId: bigint; sessionId: bigint }): string | null {
  const r = new Rd(q.encrypted_message);
  if (r.i64() !== keyId(perm)) return "key identifier";
  const mk = r.raw(16);
  const k = (a: number, b: number) => perm.subarray(a, b);
  const A = sha1(mk, k(0, 32)), B = sha1(k(32, 48), mk, k(48, 64)), C = sha1(k(64, 96), mk), D = sha1(mk, k(96, 128));
  const key = cat(A.subarray(0, 8), B.subarray(8, 20), C.subarray(4, 16)), iv = cat(A.subarray(8, 20), B.subarray(0, 8), C.subarray(16, 20), D.subarray(0, 8));
  const enc = r.raw(r.left);
  if (enc.length % 16) return "length";
  const p = new Rd(igeDec(enc, key, iv));
  const all = p.b;
  p.raw(16);
  const msgId = p.i64(), seqno = p.u32(), len = p.u32();
  if (len !== 40) return `inner length ${len}`;
  const body = p.raw(len);
  if (p.left >= 16) return "padding";
  if (!same(sha1(all.subarray(0, all.length - p.left)).subarray(4, 20), mk)) return "message key";
  if (seqno !== 0) return "seqno";
  if (msgId !== m.msgId) return "message identifier differs from that of the request";
  const o = mtCodec.decode(body);
  if (o._ !== "bind_auth_key_inner" || o.nonce !== q.nonce) return "nonce";
  if (o.temp_auth_key_id !== tempKeyId) return "temporary key identifier";
  if (o.perm_auth_key_id !== q.perm_auth_key_id) return "permanent key identifier";
  if (o.temp_session_id !== m.sessionId) return "session identifier";
  if (o.expires_at !== q.expires_at) return "expires_at";
  if (o.expires_at <= W.now / 1000 || o.expires_at > W.now / 1000 + 86_400 + 60) return "expires_at out of range";
  return null;
}
