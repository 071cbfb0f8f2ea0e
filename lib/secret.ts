// Two secret chat managers of the client, a server between them, and an oracle that
// opens every packet with keys computed independently.
// deno-lint-ignore-file no-explicit-any
import { settle, W } from "./world.ts";
import { check, type Ctl, fail, Violation } from "./explore.ts";
import { Disk, ModelStorage } from "./storage.ts";
import { Bytes, Codec, Rd } from "./tl.ts";
import { cat, envelopeKeys, igeDec, igeEnc, sha1, sha256 } from "./mt.ts";
import { be, modPow, PRIME } from "./handshake.ts";
import { schema } from "/repo/tl/1_secret_chats_api.ts";
import { SecretChatManager } from "/repo/client/3_secret_chat_manager.ts";
import { StorageOperations } from "/repo/client/0_storage_operations.ts";

export const codec = new Codec(schema as any);
export const WEEK = 7 * 24 * 3600 * 1000;

// Secret exponents the random number generator may give.
const exponent = (n: number) => {
  const b = new Uint8Array(256);
  for (let i = 0; i < 256; i += 32) b.set(sha256(new Uint8Array([n, i, 1])), i);
  return b;
};
export const POOL: Uint8Array[] = [];
for (let i = 0; i < 8; i++) POOL.push(exponent(i));
export const le2big = (b: Uint8Array) => {
  let v = 0n;
  for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]);
  return v;
};
export const fingerprint = (key: Uint8Array) => new Rd(sha1(key).subarray(12, 20)).i64();

const tables = new Map<Uint8Array[], Map<bigint, Uint8Array>>(), others = new Map<string, Map<bigint, Uint8Array>>();
/** Every key two of these exponents make. */
export function poolKeys(pool: Uint8Array[], generator = 3): Map<bigint, Uint8Array> {
  let t = generator === 3 ? tables.get(pool) : others.get(generator + pool.join());
  if (!t) {
    t = new Map();
    if (generator === 3) tables.set(pool, t);
    else others.set(generator + pool.join(), t);
    for (let i = 0; i < pool.length; i++) {
      const g = modPow(BigInt(generator), le2big(pool[i]), PRIME);
      for (let j = i; j < pool.length; j++) {
        const key = be(modPow(g, le2big(pool[j]), PRIME), 256);
        t.set(fingerprint(key), key);
      }
    }
  }
  return t;
}

export interface Packet {
  from: 0 | 1;
  seq: number;
  bytes: Uint8Array<ArrayBuffer>;
  kind: string;
  what: string;
  text?: string;
  message: any;
  layer: any;
  key: Uint8Array;
  resent: boolean;
  copies: number;
}
export interface Delivery {
  p: Packet | null;
  update: any;
  label: string;
}

export function open(key: Uint8Array, fromCreator: boolean, bytes: Uint8Array) {
  const x = fromCreator ? 0 : 8;
  const msgKey = bytes.subarray(8, 24);
  const { aesKey, aesIv } = envelopeKeys(key, msgKey, x);
  const data = bytes.subarray(24);
  check(data.length > 0 && data.length % 16 === 0, "an encrypted message is not a whole number of blocks");
  const plain = igeDec(data.slice(), aesKey, aesIv);
  const mk = sha256(key.subarray(88 + x, 120 + x), plain).subarray(8, 24);
  check(mk.every((v, i) => v === msgKey[i]), "an encrypted message carries a wrong message key");
  const len = new Rd(plain).u32();
  const padding = plain.length - 4 - len;
  check(len % 4 === 0 && padding >= 12 && padding <= 1024, () => `an encrypted message has ${padding} bytes of padding`);
  return codec.decode(plain.subarray(4, 4 + len));
}
export function seal(key: Uint8Array, fromCreator: boolean, layer: any, extra: { padding?: number; length?: number; body?: Uint8Array; mkOf?: (plain: Uint8Array) => Uint8Array; keyId?: Uint8Array; x?: number } = {}): Uint8Array<ArrayBuffer> {
  const x = extra.x ?? (fromCreator ? 0 : 8);
  const body = extra.body ?? codec.encode(layer);
  const w = new Bytes().u32(extra.length ?? body.length).raw(body);
  w.raw(new Uint8Array(extra.padding ?? ((16 - ((w.length + 12) % 16)) % 16 + 12)).fill(0xA5));
  const plain = w.done();
  const mk = sha256(key.subarray(88 + x, 120 + x), extra.mkOf ? extra.mkOf(plain) : plain).subarray(8, 24);
  const { aesKey, aesIv } = envelopeKeys(key, mk, x);
  return cat(extra.keyId ?? sha1(key).subarray(12, 20), mk, igeEnc(plain, aesKey, aesIv));
}

interface Chat {
  id: number;
  hash: [bigint, bigint];
  creator: 0 | 1;
  gA: Uint8Array;
  gB?: Uint8Array;
  fp?: bigint;
  state: "requested" | "accepted" | "discarded";
}

export class Phone {
  selfId: number;
  disk = new Disk();
  storage!: ModelStorage;
  mgr!: any;
  dead = false;
  busy: Promise<void> | null = null;
  handling: Delivery | null = null;
  received: { text: string; chat: number }[] = [];
  secretChats: any[] = [];
  rejected: string[] = [];
  constructor(public w: SecretWorld, public side: 0 | 1) {
    this.selfId = side ? 222 : 111;
  }
  get name() {
    return this.side ? "B" : "A";
  }
  async boot(gate: (op: "set" | "incr" | "get" | "getMany", key: any, phone: Phone) => void | Promise<void> = () => {}) {
    const storage = this.storage = new ModelStorage(this.disk, (op, key) => gate(op, key, this));
    const alive = () => this.storage === storage && !storage.dead;
    const ops = new StorageOperations(storage);
    const c: any = {
      id: this.side,
      storage: { assertUser() {}, assertBot() {}, isBot: false },
      messageStorage: ops,
      getSelfId: () => Promise.resolve(this.selfId),
      getInputUser: (id: any) => Promise.resolve({ _: "inputUser", user_id: BigInt(id), access_hash: 5n }),
      handleUpdate: (u: any) => {
        if (!alive()) return;
        this.onUpdate(u);
      },
      parseMode: null,
      fileManager: {
        upload: (_f: any, _p: any, _c: any, _e: any, _k: any) => Promise.resolve({ inputEncryptedFile: { _: "inputEncryptedFileUploaded", id: 5n, parts: 1, md5_checksum: "", key_fingerprint: 1 }, fileSize: 10 }),
      },
      invoke: (q: any) => {
        if (!alive()) return new Promise(() => {});
        return this.w.invoke(this, q, alive);
      },
    };
    this.mgr = new SecretChatManager(c);
    await this.mgr.loadSecretChats();
  }
  kill() {
    this.storage.dead = true;
    this.busy = null;
    this.handling = null;
  }
  onUpdate(u: any) {
    if (u.type === "secretMessage") {
      const text = u.secretMessage.text ?? u.secretMessage.caption;
      this.received.push({ text, chat: u.secretMessage.chatId });
      this.w.ctl.note(`${this.name} receives ${JSON.stringify(text)}`);
    } else if (u.type === "secretChat") this.secretChats.push(u.secretChat);
  }
  /** Hands an update to the manager, as the client does: one after the other. */
  give(d: Delivery) {
    check(!this.busy, "harness: the phone is busy");
    const mgr = this.mgr;
    this.handling = d;
    const p: Promise<void> = (async () => {
      try {
        const u = await mgr.handleUpdate(structuredClone(d.update));
        if (u && mgr === this.mgr && !this.storage.dead) this.onUpdate(u);
      } catch (e) {
        this.w.ctl.note(`${this.name}: handling failed: ${(e as Error)?.message ?? e}`);
        this.w.failures.push(`${this.name}: ${d.label}: ${(e as Error)?.message ?? e}`);
      } finally {
        if (mgr === this.mgr && this.busy === p) {
          this.busy = null;
          this.handling = null;
        }
      }
    })();
    this.busy = p;
  }
}

export interface PendingInvoke {
  phone: Phone;
  label: string;
  /** sends a message another time */
  again: boolean;
  go: () => void;
  fail: (reach: boolean) => void;
}

export class RpcError extends Error {
  constructor(public code: number, message: string) {
    super(message);
  }
}

export class SecretWorld {
  phones: [Phone, Phone];
  chats = new Map<number, Chat>();
  /** updates on their way to each phone */
  queue: [Delivery[], Delivery[]] = [[], []];
  packets: Packet[] = [];
  log: [Packet[], Packet[]] = [[], []];
  keys = new Map<bigint, Uint8Array>();
  failures: string[] = [];
  /** network operations in progress */
  pending: PendingInvoke[] = [];
  /** decides what becomes of a request: at once (default), later or failing */
  policy: (phone: Phone, q: any) => "now" | "slow" | "slow answer" | "refuse" | "lost answer" | "crash" | "crash after" = () => "now";
  onCrash: (phone: Phone) => void = () => {};
  draw = 0;
  /** keys the chat has agreed on, in order */
  established: Uint8Array | null = null;
  discards: string[] = [];
  maxIn: [number, number] = [-1, -1];
  typing: any[] = [];
  /** the parties were given different numbers */
  deceived = false;
  g = 3;
  prime: Uint8Array = be(PRIME, 256);
  constructor(public ctl: Ctl, public pool: Uint8Array[] = POOL) {
    this.phones = [new Phone(this, 0), new Phone(this, 1)];
    W.randomHook = (u) => {
      if (u.length === 256) {
        const e = pool[this.draw++ % pool.length];
        u.set(e);
      } else {
        // never hand out the same identifier twice
        this.rng = (this.rng * 1103515245 + 12345) & 0x7fffffff;
        for (let i = 0; i < u.length; i++) {
          this.rng = (Math.imul(this.rng, 1103515245) + 12345) & 0x7fffffff;
          u[i] = this.rng >>> 16;
        }
      }
    };
  }
  rng = 12345;

  #keyFor(id: bigint): Uint8Array | null {
    return this.keys.get(id) ?? poolKeys(this.pool, this.g).get(id) ?? null;
  }
  /** A phone hands the server a packet. */
  accept(phone: Phone, q: any) {
    const chat = this.chats.get(q.peer.chat_id)!;
    check(chat, "a message to an unknown chat was sent");
    const creator = phone.side === chat.creator;
    check(q.peer.access_hash === chat.hash[phone.side], "a message was sent with a wrong access hash");
    const bytes = new Uint8Array(q.data);
    const key = this.#keyFor(new Rd(bytes).i64());
    check(key, "a message was encrypted with an unknown key");
    const layer = open(key, creator, bytes);
    check(layer._ === "decryptedMessageLayer", `a message is not in a layer: ${layer._}`);
    check(layer.layer >= 73, "a layer without MTProto 2.0 is used");
    check(layer.random_bytes.length >= 15, "too few random bytes");
    const mine = creator ? 1 : 0;
    check(layer.out_seq_no >= 0 && layer.out_seq_no % 2 === mine, `out_seq_no ${layer.out_seq_no} of the ${creator ? "creator" : "other party"}`);
    check(layer.in_seq_no >= 0 && layer.in_seq_no % 2 === 1 - mine, `in_seq_no ${layer.in_seq_no} of the ${creator ? "creator" : "other party"}`);
    const seq = (layer.out_seq_no - mine) / 2;
    const old = this.log[phone.side].find((p) => p.seq === seq);
    const late = seq < Math.max(-1, ...this.log[phone.side].map((p) => p.seq));
    const service = layer.message._ === "decryptedMessageService";
    const what = service ? layer.message.action._.replace("decryptedMessageAction", "") : JSON.stringify(layer.message.message);
    if (old) {
      check(old.bytes.length === bytes.length && old.bytes.every((v, i) => v === bytes[i]), () => `message ${seq} of ${phone.name} (${old.what}) was sent again with other contents: ${what}`, "a sequence number was used for two messages");
    } else {
      const top = Math.max(-1, ...this.log[phone.side].map((p) => p.seq));
      // numbers may be skipped only if a message could not be sent
      check(seq > top || this.skipped[phone.side].has(seq), `message ${seq} was sent after ${top}`);
      for (let s = top + 1; s < seq; s++) this.skipped[phone.side].add(s);
      this.skipped[phone.side].delete(seq);
      const inSeq = (layer.in_seq_no - (1 - mine)) / 2;
      // a number acknowledges only what was sent
      const peerTop = Math.max(-1, ...this.log[1 - phone.side].map((p) => p.seq)) + 1;
      check(inSeq <= peerTop, `in_seq_no counts ${inSeq} messages, ${peerTop} were sent`);
      check(seq < top || inSeq >= this.maxIn[phone.side], "in_seq_no decreased");
      if (seq > top) this.maxIn[phone.side] = inSeq;
    }
    check(service ? q._ === "messages.sendEncryptedService" : q._ !== "messages.sendEncryptedService", `${what} was sent with ${q._}`);
    check(!old === !!old || !old || q._ === old.kind, "harness");
    const rid = layer.message.random_id;
    if (!old && !late) check(rid === q.random_id, "random_id of the message and the request differ");
    const p: Packet = old ?? { from: phone.side, seq, bytes: bytes as any, kind: q._, what, message: layer.message, layer, key, resent: false, copies: 0, text: layer.message.message };
    if (!old) {
      this.packets.push(p);
      this.log[phone.side].push(p);
      this.log[phone.side].sort((a, b) => a.seq - b.seq);
    }
    p.copies++;
    if (old) p.resent = true;
    if (chat.state !== "accepted") throw new RpcError(400, "ENCRYPTION_DECLINED");
    let file: any = { _: "encryptedFileEmpty" };
    if (q._ === "messages.sendEncryptedFile") {
      if (q.file._ === "inputEncryptedFileUploaded") file = { _: "encryptedFile", id: 900n + BigInt(seq), access_hash: 44n, size: 16n, dc_id: 2, key_fingerprint: q.file.key_fingerprint };
      else if (q.file._ === "inputEncryptedFile") file = { _: "encryptedFile", id: q.file.id, access_hash: q.file.access_hash, size: 16n, dc_id: 2, key_fingerprint: 1 };
      else fail(`a file was sent as ${q.file._}`);
    } else check(!old || old.kind === q._, () => `message ${seq} was sent with ${old!.kind} first, and with ${q._} again`);
    const message = service
      ? { _: "encryptedMessageService", random_id: q.random_id, chat_id: chat.id, date: Math.floor(W.now / 1000), bytes }
      : { _: "encryptedMessage", random_id: q.random_id, chat_id: chat.id, date: Math.floor(W.now / 1000), bytes, file };
    this.queue[1 - phone.side].push({ p, update: { _: "updateNewEncryptedMessage", message, qts: 0 }, label: `${phone.name}${seq} ${what}${old || late ? " (resent)" : ""}` });
    this.ctl.note(`${phone.name} sends #${seq} ${what}${old ? " again" : ""}`);
    return q._ === "messages.sendEncryptedFile" ? { _: "messages.sentEncryptedFile", date: 1, file } : { _: "messages.sentEncryptedMessage", date: 1 };
  }
  /** Whether a request repeats a message, or sends one after later ones. */
  again(phone: Phone, q: any): boolean {
    const chat = this.chats.get(q.peer?.chat_id);
    const key = q.data && this.#keyFor(new Rd(q.data).i64());
    if (!chat || !key) return false;
    return Math.floor(open(key, phone.side === chat.creator, new Uint8Array(q.data)).out_seq_no / 2) <= Math.max(-1, ...this.log[phone.side].map((p) => p.seq));
  }
  skipped: [Set<number>, Set<number>] = [new Set(), new Set()];

  chatFor(chat: Chat, side: 0 | 1): any {
    const base = { id: chat.id, access_hash: chat.hash[side], date: 1, admin_id: BigInt(this.phones[chat.creator].selfId), participant_id: BigInt(this.phones[1 - chat.creator].selfId) };
    if (chat.state === "discarded") return { _: "encryptedChatDiscarded", id: chat.id };
    if (chat.state === "requested") return side === chat.creator ? { _: "encryptedChatWaiting", ...base } : { _: "encryptedChatRequested", ...base, g_a: chat.gA };
    return { _: "encryptedChat", ...base, g_a_or_b: side === chat.creator ? chat.gB : chat.gA, key_fingerprint: chat.fp };
  }
  announce(chat: Chat, side: 0 | 1) {
    this.queue[side].push({ p: null, update: { _: "updateEncryption", chat: this.chatFor(chat, side), date: 1 }, label: `chat ${chat.state}` });
  }
  /** What the server does with a request. */
  serve(phone: Phone, q: any): any {
    try {
      return this.#serve(phone, q);
    } catch (e) {
      if (e instanceof Violation) this.bad ??= e;
      throw e;
    }
  }
  bad: Violation | null = null;
  ok() {
    if (this.bad) throw this.bad;
  }
  #serve(phone: Phone, q: any): any {
    switch (q._) {
      case "messages.getDhConfig":
        return { _: "messages.dhConfig", g: this.g, p: this.prime.slice(), version: 1, random: new Uint8Array(256).fill(7) };
      case "messages.requestEncryption": {
        check(q.g_a.length === 256, `g_a of ${q.g_a.length} bytes`);
        const chat: Chat = { id: q.random_id, hash: [71n, 72n], creator: phone.side, gA: q.g_a, state: "requested" };
        this.chats.set(chat.id, chat);
        this.announce(chat, (1 - phone.side) as 0 | 1);
        return this.chatFor(chat, phone.side);
      }
      case "messages.acceptEncryption": {
        const chat = this.chats.get(q.peer.chat_id)!;
        check(chat && q.peer.access_hash === chat.hash[phone.side], "acceptEncryption: wrong peer");
        if (chat.state !== "requested") throw new RpcError(400, chat.state === "accepted" ? "ENCRYPTION_ALREADY_ACCEPTED" : "ENCRYPTION_ALREADY_DECLINED");
        check(q.g_b.length === 256, `g_b of ${q.g_b.length} bytes`);
        chat.gB = q.g_b;
        chat.fp = q.key_fingerprint;
        chat.state = "accepted";
        const key = this.#keyFor(q.key_fingerprint);
        check(key || this.deceived, "the key fingerprint given to the server is not that of the shared key");
        this.announce(chat, chat.creator);
        return this.chatFor(chat, phone.side);
      }
      case "messages.discardEncryption": {
        const chat = this.chats.get(q.chat_id);
        check(chat, "an unknown chat was discarded");
        this.discards.push(phone.name);
        this.ctl.note(`${phone.name} discards the chat`);
        if (chat.state !== "discarded") {
          chat.state = "discarded";
          this.announce(chat, (1 - phone.side) as 0 | 1);
        }
        return true;
      }
      case "messages.sendEncrypted":
      case "messages.sendEncryptedService":
      case "messages.sendEncryptedFile":
        return this.accept(phone, q);
      case "messages.setEncryptedTyping":
        this.typing.push(q);
        return true;
      case "messages.readEncryptedHistory":
        return true;
    }
    fail(`unexpected request ${q._}`);
  }
  invoke(phone: Phone, q: any, alive: () => boolean): Promise<any> {
    q = structuredClone(q);
    const policy = this.policy(phone, q);
    if (policy === "now") {
      try {
        return Promise.resolve(this.serve(phone, q));
      } catch (e) {
        return Promise.reject(e);
      }
    }
    if (policy === "refuse") {
      this.ctl.note(`${q._} of ${phone.name} fails`);
      return Promise.reject(new RpcError(500, "INTERNAL"));
    }
    if (policy === "lost answer") {
      this.ctl.note(`the answer to ${q._} of ${phone.name} is lost`);
      try {
        this.serve(phone, q);
      } catch {
        //
      }
      return Promise.reject(new Error("Connection was closed."));
    }
    if (policy === "crash" || policy === "crash after") {
      if (policy === "crash after") {
        try {
          this.serve(phone, q);
        } catch {
          //
        }
      }
      this.onCrash(phone);
      return new Promise(() => {});
    }
    if (policy === "slow answer") {
      // the server has dealt with it, the answer takes its time
      this.ctl.note(`the answer to ${q._} of ${phone.name} takes long`);
      let result: any, error: any;
      try {
        result = this.serve(phone, q);
      } catch (e) {
        error = e;
      }
      return new Promise((resolve, reject) => {
        const entry: PendingInvoke = {
          phone,
          label: `answer to ${q._}`,
          again: true,
          go: () => {
            this.pending.splice(this.pending.indexOf(entry), 1);
            if (!alive()) return;
            if (error) reject(error);
            else resolve(result);
          },
          fail: () => {
            this.pending.splice(this.pending.indexOf(entry), 1);
            if (alive()) reject(new Error("Connection was closed."));
          },
        };
        this.pending.push(entry);
      });
    }
    return new Promise((resolve, reject) => {
      const entry: PendingInvoke = {
        phone,
        label: q._.replace("messages.", ""),
        again: this.again(phone, q),
        go: () => {
          this.pending.splice(this.pending.indexOf(entry), 1);
          if (!alive()) return;
          try {
            resolve(this.serve(phone, q));
          } catch (e) {
            reject(e);
          }
        },
        fail: (reach) => {
          this.pending.splice(this.pending.indexOf(entry), 1);
          if (!alive()) return;
          if (reach) {
            try {
              this.serve(phone, q);
            } catch {
              //
            }
          }
          reject(new Error("Connection was closed."));
        },
      };
      this.pending.push(entry);
    });
  }
  /** Brings a chat into being; `creator` asks for it. */
  async establish(creator: 0 | 1, gate?: (op: any, key: any, phone: Phone) => any) {
    for (const p of this.phones) await p.boot(gate);
    const a = this.phones[creator], b = this.phones[1 - creator];
    const chat = await a.mgr.requestSecretChat(b.selfId);
    await this.drain();
    await b.mgr.acceptSecretChat(chat.id);
    await this.drain();
    return chat.id as number;
  }
  /** Delivers everything in order. */
  async drain() {
    for (let n = 0;; n++) {
      if (n > 600) fail("the two clients keep sending messages to each other");
      await settle();
      this.ok();
      if (this.pending.length) {
        this.pending[0].go();
        continue;
      }
      let any = false;
      for (const s of [0, 1] as const) {
        const d = this.queue[s][0];
        if (d && !this.phones[s].busy) {
          this.queue[s].shift();
          this.ctl.step(`${this.phones[s].name} gets ${d.label}`);
          this.phones[s].give(d);
          any = true;
          await settle();
        }
      }
      if (!any) {
        if (!this.queue[0].length && !this.queue[1].length && !this.pending.length) {
          check(!this.phones[0].busy && !this.phones[1].busy, () => `${this.phones[0].busy ? "A" : "B"} never finishes handling ${this.phones.find((p) => p.busy)!.handling!.label}`, "handling an update never ends");
          return;
        }
        if (!this.pending.length && n > 300) fail("an update is never handled");
      }
    }
  }
}
