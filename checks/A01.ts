// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { settle, W } from "../lib/world.ts";
import { be, goodG, modPow, PRIME, ube } from "../lib/handshake.ts";
import { SALT1, SALT2, Srp, verifier } from "../lib/auth_server.ts";
import { checkPassword } from "/repo/client/0_password.ts";

const PASSWORDS = ["secret", "", "пароль 😀", "x".repeat(200), " a ", "e\u0301", "\u00e9"];
/** bytes for the client's secret exponent, read by the client as a little-endian number */
const A0 = Uint8Array.from({ length: 256 }, (_, i) => (i * 7 + 3) & 255);
const minimal = (n: bigint) => {
  const b = be(n, 256);
  return b.subarray(b.findIndex((x) => x));
};
interface Cfg {
  password: string;
  typed: string;
  g: number;
  salt1: Uint8Array;
  salt2: Uint8Array;
  b: bigint;
  short: boolean;
  a: Uint8Array[];
}
const algorithm = (c: { g: number; salt1: Uint8Array; salt2: Uint8Array }, p = be(PRIME, 256)) => ({ _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: c.salt1, salt2: c.salt2, g: c.g, p });
const settings = (c: { g: number; salt1: Uint8Array; salt2: Uint8Array }, srp: Srp, extra: any = {}) => ({ _: "account.password", has_password: true, current_algo: algorithm(c), srp_B: be(srp.B, 256), srp_id: 31n, new_algo: algorithm(c), new_secure_algo: { _: "securePasswordKdfAlgoUnknown" }, secure_random: new Uint8Array(8), ...extra });

/** What the client draws from the random source. */
function draw(list: Uint8Array[]) {
  const drawn = { bytes: 0, n: 0 };
  W.randomHook = (b) => {
    drawn.bytes += b.length;
    const from = list[Math.min(drawn.n++, list.length - 1)];
    for (let i = 0; i < b.length; i++) b[i] = from[i % from.length];
  };
  return drawn;
}
async function prove(c: Cfg) {
  const srp = new Srp(verifier(c.password, c.g, c.salt1, c.salt2), c.g, c.b, c.salt1, c.salt2);
  const drawn = draw(c.a);
  let end: any;
  checkPassword(c.typed, settings(c, srp, c.short ? { srp_B: minimal(srp.B) } : {}) as any).then((v) => end = { v }, (e) => end = { e });
  await settle();
  check(end, "computing a proof does not end");
  check(!end.e, () => `computing a proof fails: ${end.e}`, "computing a proof fails");
  const p = end.v;
  check(p?._ === "inputCheckPasswordSRP" && p.srp_id === 31n, "a proof has another identifier");
  check(p.A instanceof Uint8Array && p.A.length === 256, "A is not 256 bytes long");
  check(p.M1 instanceof Uint8Array && p.M1.length === 32, "M1 is not 32 bytes long");
  const A = ube(p.A);
  check(goodG(A, PRIME), "the client sends a weak A");
  return { p, A, srp, drawn };
}
function proofs(name: string, cases: (ctl: Ctl) => Cfg): Scenario {
  return {
    name,
    async run(ctl: Ctl) {
      const c = cases(ctl);
      const { p, A, srp, drawn } = await prove(c);
      const right = srp.verify(A, p.M1);
      ctl.step(`password ${c.password.slice(0, 10)}, typed ${c.typed.slice(0, 10)}, g ${c.g}: ${right}`);
      check(right === (c.password === c.typed), () => right ? "a wrong password is proved" : "the proof of the right password is refused");
      check(drawn.bytes >= 256 * Math.min(c.a.length, drawn.n) && drawn.n >= 1, () => `the secret exponent is made of ${drawn.bytes} random bytes`, "the secret exponent is too short");
      ctl.outcome(String(A % 1000007n));
    },
  };
}
const bytes = (n: number, k: number) => Uint8Array.from({ length: n }, (_, i) => (i * k + k) & 255);
/** the number as the client reads it from random bytes */
const le = (n: bigint) => be(n, 256).reverse();

const REFUSED: [string, (c: any, srp: Srp) => any][] = [
  ["another algorithm", () => ({ current_algo: { _: "passwordKdfAlgoUnknown" } })],
  ["no algorithm", () => ({ current_algo: undefined })],
  ["no B", () => ({ srp_B: undefined })],
  ["no identifier", () => ({ srp_id: undefined })],
  ["B is 0", () => ({ srp_B: new Uint8Array(256) })],
  ["B is p", () => ({ srp_B: be(PRIME, 256) })],
  ["B is p + 1", () => ({ srp_B: be(PRIME + 1n, 256) })],
  ["B is 2p, of 257 bytes", () => ({ srp_B: be(2n * PRIME, 257) })],
  ["B is greater than p by a whole proof", (_c, srp) => ({ srp_B: be(srp.B + PRIME, 257) })],
  ["B is of 300 bytes", () => ({ srp_B: new Uint8Array(300).fill(1) })],
  ["the prime is shorter", (c) => ({ current_algo: algorithm(c, be(PRIME, 256).slice(0, 255)) })],
  ["the prime is longer", (c) => ({ current_algo: algorithm(c, new Uint8Array([0, ...be(PRIME, 256)])) })],
  ["the prime is empty", (c) => ({ current_algo: algorithm(c, new Uint8Array()) })],
  ["the prime is 0", (c) => ({ current_algo: algorithm(c, new Uint8Array(256)) })],
  ["p - 1", (c) => ({ current_algo: algorithm(c, be(PRIME - 1n, 256)) })],
  ["(p - 1) / 2", (c) => ({ current_algo: algorithm(c, be((PRIME - 1n) / 2n, 256)) })],
  ...[0, 1, 2, 6, 8, 9, 10, -1, -3, 11].map((g): [string, (c: any) => any] => [`g is ${g}`, (c) => ({ current_algo: algorithm({ ...c, g }) })]),
  ...Array.from({ length: 256 }, (_, i): [string, (c: any) => any] => [`byte ${i} of the prime differs`, (c) => {
    const p = be(PRIME, 256);
    p[i] ^= 1 << (i % 8);
    return { current_algo: algorithm(c, p) };
  }]),
];

export default {
  id: "A01",
  level: "model_checking",
  rule: "The real computation of password proofs against an independent model of the server's side of SRP; all listed combinations of passwords, salts, generators and random draws, among them all that make numbers with leading zeros or unusable ones, and all listed wrong parameters.",
  assumptions: ["The key derivation and hashes of the platform (PBKDF2, SHA-256) are right; they come from node:crypto."],
  exhaustive: true,
  scenarios: (tier) => {
    const q = tier === "quick";
    const base = { g: 3, salt1: SALT1, salt2: SALT2, b: 90_001n, short: false, a: [A0] };
    const a = ube(A0.slice().reverse());
    const half = (PRIME - 1n) / 2n;
    return [
      proofs("passwords", (ctl) => {
        const password = ctl.pick(PASSWORDS, "password"), typed = ctl.pick([password, ...PASSWORDS.filter((x) => x !== password).slice(0, q ? 2 : 9)], "typed");
        return { ...base, password, typed };
      }),
      proofs("salts and generators", (ctl) => {
        const g = ctl.pick([3, 4, 5, 7], "g");
        const salt1 = ctl.pick([SALT1, new Uint8Array(), bytes(8, 3), bytes(72, 5)], "salt1"), salt2 = ctl.pick(q ? [SALT2, new Uint8Array()] : [SALT2, new Uint8Array(), bytes(200, 7)], "salt2");
        return { ...base, g, salt1, salt2, password: "secret", typed: ctl.pick(q ? ["secret"] : ["secret", "Secret"], "typed") };
      }),
      proofs("numbers with leading zeros", (ctl) => {
        // the shared secret, B, A; found by search, and checked here
        const c = ctl.pick([
          { ...base, b: 70_022n },
          { ...base, b: 70_184n },
          { ...base, b: 70_184n, short: true },
          { ...base, a: [le(a + 41n)] },
          { ...base, b: 1n, short: true },
        ], "numbers");
        return { ...c, password: "secret", typed: ctl.pick(["secret", "other"], "typed") };
      }),
      proofs("unusable draws", (ctl) => {
        // 0, powers that are small, those next to p, and then a usable one
        const bad = [0n, 1n, 2n, 63n, 1000n, half, half + 5n, 2n * half, 2n * half + 3n].map(le);
        const n = ctl.pick(q ? [1, 2] : [1, 2, 3], "draws");
        const l = Array.from({ length: n }, (_, i) => ctl.pick(bad, `draw ${i}`));
        return { ...base, a: [...l, A0], password: "secret", typed: "secret" };
      }),
      {
        name: "each random byte",
        async run(ctl: Ctl) {
          // every byte of the secret exponent counts
          const i = ctl.free(q ? 32 : 256, "byte") * (q ? 8 : 1) + (q ? 7 : 0);
          const c = { ...base, password: "secret", typed: "secret" };
          const one = A0.slice();
          one[i] ^= 0x80;
          const x = await prove(c), y = await prove({ ...c, a: [one] });
          check(x.A !== y.A, () => `byte ${i} of the random bytes is not used`, "the secret exponent is too short");
          check(y.srp.verify(y.A, y.p.M1), "the proof of the right password is refused");
          ctl.step(`byte ${i}`);
        },
      },
      {
        name: "refused parameters",
        async run(ctl: Ctl) {
          const [name, f] = REFUSED[ctl.free(REFUSED.length, "what")];
          const srp = new Srp(verifier("secret", 3), 3, 90_001n);
          draw([A0]);
          let end: any;
          checkPassword("secret", settings(base, srp, f(base, srp)) as any).then((v) => end = { v }, (e) => end = { e });
          await settle();
          ctl.step(`${name}: ${end?.e}`);
          check(end, "computing a proof does not end");
          check(end.e, () => `a proof is made although ${name}`, "a proof is made with wrong parameters");
        },
      },
    ];
  },
} satisfies CheckDef;
void modPow;
