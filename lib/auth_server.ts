// Accounts of the model Telegram: signing in by code, password (SRP), bot token, signing
// up and out, with each account living in one data center.
// deno-lint-ignore-file no-explicit-any
import { Buffer } from "node:buffer";
import { pbkdf2Sync } from "node:crypto";
import { be, goodG, modPow, PRIME, ube } from "./handshake.ts";
import { cat, sha256 } from "./mt.ts";
import { selfUser, user } from "./client.ts";
import { check } from "./explore.ts";
import type { Cloud, CloudAnswer, CloudRequest, KeyRec } from "./cloud.ts";

export interface Account {
  id: bigint;
  dc: string;
  phone?: string;
  token?: string;
  code?: string;
  password?: string;
  hint?: string;
  registered: boolean;
  firstName?: string;
  lastName?: string;
}
const enc = new TextEncoder();
const verifiers = new Map<string, bigint>();
export const SALT1 = new Uint8Array(40).map((_, i) => i * 3 + 1);
export const SALT2 = new Uint8Array(16).map((_, i) => 200 - i);
const sh = (d: Uint8Array, s: Uint8Array) => sha256(s, d, s);
export function verifier(password: string, g: number, salt1 = SALT1, salt2 = SALT2): bigint {
  const k = `${password} ${g} ${Buffer.from(salt1).toString("hex")} ${Buffer.from(salt2).toString("hex")}`;
  let v = verifiers.get(k);
  if (v === undefined) {
    const p1 = sh(sh(enc.encode(password), salt1), salt2);
    const x = sh(new Uint8Array(pbkdf2Sync(p1, salt1, 100_000, 64, "sha512")), salt2);
    verifiers.set(k, v = modPow(BigInt(g), ube(x), PRIME));
  }
  return v;
}
/** The server's side of one SRP exchange. */
export class Srp {
  B: bigint;
  k: bigint;
  constructor(public v: bigint, public g: number, public b: bigint, public salt1 = SALT1, public salt2 = SALT2) {
    this.k = ube(sha256(be(PRIME, 256), be(BigInt(g), 256)));
    this.B = (this.k * v + modPow(BigInt(g), b, PRIME)) % PRIME;
  }
  /** Whether the proof is right. */
  verify(A: bigint, m1: Uint8Array): boolean {
    if (!goodG(A, PRIME)) return false;
    const u = ube(sha256(be(A, 256), be(this.B, 256)));
    const s = modPow(A * modPow(this.v, u, PRIME) % PRIME, this.b, PRIME);
    const kA = sha256(be(s, 256));
    const hp = sha256(be(PRIME, 256)), hg = sha256(be(BigInt(this.g), 256));
    const want = sha256(hp.map((x, i) => x ^ hg[i]), sha256(this.salt1), sha256(this.salt2), be(A, 256), be(this.B, 256), kA);
    return want.length === m1.length && want.every((x, i) => x === m1[i]);
  }
}
interface Session {
  hash?: string;
  phone?: string;
  codeOk?: boolean;
  password?: Account;
  srp?: Srp;
  srpId?: bigint;
}
export class AuthServer {
  sessions = new Map<KeyRec, Session>();
  signIns = 0;
  signOuts = 0;
  #n = 0;
  constructor(public cloud: Cloud, public accounts: Account[]) {}
  #s(k: KeyRec): Session {
    let s = this.sessions.get(k);
    if (!s) this.sessions.set(k, s = {});
    return s;
  }
  #in(r: CloudRequest, a: Account): CloudAnswer {
    r.key.user = a.id;
    this.signIns++;
    this.sessions.delete(r.key);
    return { result: { _: "auth.authorization", user: { ...user(a.id), self: true, ...(a.token ? { bot: true, bot_info_version: 1 } : {}), first_name: a.firstName ?? "x" } } };
  }
  handle(r: CloudRequest): CloudAnswer | undefined {
    const q = r.q, s = this.#s(r.key);
    switch (q._) {
      case "auth.sendCode": {
        check(q.api_id === 5 && q.api_hash === "h", "auth.sendCode with other credentials");
        const a = this.accounts.find((a) => a.phone === q.phone_number);
        if (!a) return { error: [406, "PHONE_NUMBER_INVALID"] };
        if (a.dc !== r.dc) return { error: [303, `PHONE_MIGRATE_${a.dc[0]}`] };
        s.hash = `hash${this.#n++}`;
        s.phone = a.phone;
        return { result: { _: "auth.sentCode", type: { _: "auth.sentCodeTypeApp", length: 5 }, phone_code_hash: s.hash } };
      }
      case "auth.signIn": {
        if (q.phone_number !== s.phone || !s.phone) return { error: [400, "PHONE_NUMBER_INVALID"] };
        if (q.phone_code_hash !== s.hash) return { error: [400, "PHONE_CODE_EXPIRED"] };
        const a = this.accounts.find((a) => a.phone === s.phone)!;
        if (q.phone_code !== a.code) return { error: [400, "PHONE_CODE_INVALID"] };
        s.codeOk = true;
        if (!a.registered) return { result: { _: "auth.authorizationSignUpRequired" } };
        if (a.password !== undefined) {
          s.password = a;
          return { error: [401, "SESSION_PASSWORD_NEEDED"] };
        }
        return this.#in(r, a);
      }
      case "auth.signUp": {
        const a = this.accounts.find((a) => a.phone === s.phone);
        if (!a || !s.codeOk || q.phone_code_hash !== s.hash || q.phone_number !== s.phone) return { error: [400, "PHONE_CODE_EXPIRED"] };
        a.registered = true;
        a.firstName = q.first_name;
        a.lastName = q.last_name;
        return this.#in(r, a);
      }
      case "account.getPassword": {
        const a = s.password;
        if (!a) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
        s.srp = new Srp(verifier(a.password!, 3), 3, 70_001n + BigInt(this.#n++));
        s.srpId = 900n + BigInt(this.#n);
        const algo = { _: "passwordKdfAlgoSHA256SHA256PBKDF2HMACSHA512iter100000SHA256ModPow", salt1: SALT1, salt2: SALT2, g: 3, p: be(PRIME, 256) };
        return { result: { _: "account.password", has_password: true, current_algo: algo, srp_B: be(s.srp.B, 256), srp_id: s.srpId, hint: a.hint, new_algo: algo, new_secure_algo: { _: "securePasswordKdfAlgoUnknown" }, secure_random: new Uint8Array(8) } };
      }
      case "auth.checkPassword": {
        const a = s.password, srp = s.srp;
        if (!a) return { error: [401, "AUTH_KEY_UNREGISTERED"] };
        if (!srp || q.password._ !== "inputCheckPasswordSRP" || q.password.srp_id !== s.srpId) return { error: [400, "SRP_ID_INVALID"] };
        s.srp = undefined;
        if (q.password.A.length !== 256 || !srp.verify(ube(q.password.A), q.password.M1)) return { error: [400, "PASSWORD_HASH_INVALID"] };
        return this.#in(r, a);
      }
      case "auth.importBotAuthorization": {
        check(q.api_id === 5 && q.api_hash === "h", "auth.importBotAuthorization with other credentials");
        const a = this.accounts.find((a) => a.token === q.bot_auth_token);
        if (!a) return { error: [400, "ACCESS_TOKEN_INVALID"] };
        if (a.dc !== r.dc) return { error: [303, `USER_MIGRATE_${a.dc[0]}`] };
        return this.#in(r, a);
      }
      case "auth.logOut":
        this.signOuts++;
        r.key.user = null;
        return { result: { _: "auth.loggedOut" } };
      case "users.getUsers": {
        const a = this.accounts.find((a) => a.id === r.key.user);
        return { result: q.id.map((x: any) => x._ === "inputUserSelf" && a ? { ...user(a.id), self: true, ...(a.token ? { bot: true, bot_info_version: 1 } : {}), first_name: a.firstName ?? "x" } : user(x.user_id ?? 1n)) };
      }
    }
    return undefined;
  }
}
void [cat, selfUser];
