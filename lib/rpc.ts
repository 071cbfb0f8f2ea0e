// One real ClientEncrypted against the model server, with every network and server
// decision taken by the explorer.
// deno-lint-ignore-file no-explicit-any
import { advance, settle, timers, turn, W } from "./world.ts";
import { badMsg, badSalt, ConnClosed, gz, ID, type InMsg, type Link, MtServer, Net, newSession, pong, rpcError, rpcResult, testKey } from "./mt.ts";
import { Bytes, Codec, Rd, show } from "./tl.ts";
import { check, type Ctl, fail } from "./explore.ts";
import { Api, Mtproto } from "/repo/2_tl.ts";
import { ClientEncrypted } from "/repo/client/2_client_encrypted.ts";
import { ConnectionError, RetryError } from "/repo/0_errors.ts";
import { setLogVerbosity } from "/repo/1_utilities.ts";
try {
  setLogVerbosity(Number(Deno.env.get("VERIF_LOG") ?? 0) as any);
} catch {
  //
}

export const apiCodec = new Codec(Api.schema as any);
export const mtCodec = new Codec(Mtproto.schema as any);

export interface Call {
  n: number;
  path: string;
  status: "pending" | "ok" | "err";
  value?: any;
  error?: any;
  sent: InMsg[];
  /** results the server gave to some transmission of this call */
  results: Set<string>;
  errors: Set<string>;
  /** transmissions the server refused or the client had reason to believe lost */
  resendAllowance: number;
  lossWhile: boolean;
}

export interface Wrapped {
  init: any | null;
  layer: number | null;
  noUpdates: boolean;
  query: any;
}
export function unwrap(body: Uint8Array): Wrapped {
  let o = apiCodec.decode(body);
  const w: Wrapped = { init: null, layer: null, noUpdates: false, query: null };
  while (true) {
    if (o._ === "initConnection") w.init = o, o = o.query;
    else if (o._ === "invokeWithLayer") w.layer = o.layer, o = o.query;
    else if (o._ === "invokeWithoutUpdates") w.noUpdates = true, o = o.query;
    else break;
  }
  w.query = o;
  return w;
}

export interface RpcOptions {
  params?: any;
  skew?: number;
  checkTime?: boolean;
  large?: boolean;
}

export class Rpc {
  net = new Net();
  server = new MtServer(testKey());
  client: any;
  calls: Call[] = [];
  /** content messages not answered yet */
  open: InMsg[] = [];
  updates: any[] = [];
  pushed: string[] = [];
  newSalts: bigint[] = [];
  ctl: Ctl;
  opt: RpcOptions;
  answered: InMsg[] = [];
  disconnects = 0;
  appDisconnected = false;
  contentOut: { id: bigint; session: bigint; at: number; link: Link }[] = [];
  lastResultFor?: InMsg;
  maxTransmissions = 40;
  heldCrypto: (() => void)[] = [];
  /** Hold every encryption of an outgoing packet until the explorer completes it. */
  holdCrypto() {
    const k = testKey().subarray(88, 120);
    W.digestGate = (r, d) => {
      for (let i = 0; i < 32; i++) if (d[i] !== k[i]) return Promise.resolve(r);
      return new Promise((resolve) => this.heldCrypto.push(() => resolve(r)));
    };
  }
  constructor(ctl: Ctl, opt: RpcOptions = {}) {
    this.ctl = ctl;
    this.opt = opt;
    this.server.timeSkew = opt.skew ?? 0;
    this.server.salt = 0x1111111111n;
    this.server.checkSalt = true;
    this.net.onPacket = (link, b) => this.#packet(link, b);
  }
  async start() {
    this.client = new ClientEncrypted("2", 1, { transportProvider: this.net.provider, appVersion: "1", deviceModel: "d", langCode: "en", systemLangCode: "en", systemVersion: "1", langPack: "", ...(this.opt.params ?? {}) });
    await this.client.setAuthKey(testKey());
    this.client.handlers.onUpdate = (u: any) => void this.updates.push(u);
    this.client.handlers.onNewServerSalt = (s: bigint) => void this.newSalts.push(s);
    this.client.serverSalt = this.server.salt;
    await this.client.connect();
    await settle();
  }
  #packet(link: Link, b: Uint8Array) {
    const msgs = this.server.receive(link, b);
    if (this.expectedSalt !== null) {
      check(msgs[0].salt === this.expectedSalt || (this.saltReset && msgs[0].salt === 0n), () => `a packet carries salt ${msgs[0].salt}, the server last announced ${this.expectedSalt}`, "a packet carries an outdated salt");
    }
    const content = msgs.filter((m) => m.id !== ID.ack);
    for (const m of content) {
      this.ctl.note(`server <- ${this.describe(m)}`);
      if (m.id !== ID.pingDelay && m.id !== ID.ping) {
        const q = unwrap(m.body).query;
        const c = this.calls.find((c) => c.path === q.path);
        if (!c) fail(`the server received a request nobody made: ${show(q)}`);
        c.sent.push(m);
        check(c.sent.length <= this.maxTransmissions, "a call is transmitted again without end");
      }
      this.open.push(m);
    }
  }
  describe(m: InMsg): string {
    if (m.id === ID.pingDelay) return "ping_delay_disconnect";
    const w = unwrap(m.body);
    return `${w.init ? "init:" : ""}${w.query._}(${String(w.query.path ?? "").slice(0, 4)}) container=${m.container !== null} gz=${m.gz}`;
  }
  callOf(m: InMsg): Call | undefined {
    return this.calls.find((c) => c.sent.includes(m));
  }
  invoke(large = false) {
    const n = this.calls.length;
    const path = `p${n}` + (large ? "-".repeat(3000) : "");
    const c: Call = { n, path, status: "pending", sent: [], results: new Set(), errors: new Set(), resendAllowance: 0, lossWhile: this.appDisconnected };
    this.calls.push(c);
    this.client.invoke({ _: "help.getDeepLinkInfo", path }).then((v: any) => {
      check2(c.status === "pending", "settled twice");
      c.status = "ok";
      c.value = v;
    }, (e: any) => {
      c.status = "err";
      c.error = e;
    });
    return c;
  }
  live(): Link | undefined {
    return this.net.live.at(-1);
  }
  /** messages that can be answered: received on the live link in the session the client last used */
  answerable(): InMsg[] {
    const l = this.live();
    return l ? this.open.filter((m) => m.sessionId === this.server.lastSession) : [];
  }
  send(session: bigint, body: Uint8Array, o: any = {}) {
    const l = this.live();
    if (!l) return 0n;
    const msgId = o.msgId ?? this.server.nextMsgId(o.kind ?? 1);
    if (o.content !== false) this.contentOut.push({ id: msgId, session, at: W.now, link: l });
    l.conn.deliver(l, this.server.seal(session, body, { ...o, msgId }));
    return msgId;
  }
  remove(m: InMsg) {
    this.open = this.open.filter((x) => x !== m);
    this.answered.push(m);
  }
  resultBody(m: InMsg): Uint8Array {
    if (m.id === ID.pingDelay) return pong(m.msgId, new Rd(m.body.subarray(4)).i64());
    const c = this.callOf(m)!;
    const message = `r${c.n}`;
    c.results.add(message);
    return rpcResult(m.msgId, apiCodec.encode({ _: "help.deepLinkInfo", message: message }));
  }
  answer(m: InMsg, how: "plain" | "gzip-result" | "gzip-all" | "empty" = "plain") {
    this.remove(m);
    let body = this.resultBody(m);
    if (m.id !== ID.pingDelay) {
      if (how === "gzip-result") {
        const c = this.callOf(m)!;
        body = rpcResult(m.msgId, gz(apiCodec.encode({ _: "help.deepLinkInfo", message: `r${c.n}` })));
      } else if (how === "gzip-all") body = gz(body);
      else if (how === "empty") {
        const c = this.callOf(m)!;
        c.results.add("<empty>");
        body = rpcResult(m.msgId, apiCodec.encode({ _: "help.deepLinkInfoEmpty" }));
      }
    }
    this.lastResultFor = m;
    return this.send(m.sessionId, body);
  }
  answerTogether(ms: InMsg[], extra: Uint8Array[] = []) {
    const parts = [];
    const session = ms[0].sessionId;
    for (const m of ms) {
      this.remove(m);
      const msgId = this.server.nextMsgId();
      this.contentOut.push({ id: msgId, session, at: W.now, link: this.live()! });
      parts.push({ msgId, seqno: this.server.serverSeq(session, true), body: this.resultBody(m) });
    }
    for (const e of extra) {
      const msgId = this.server.nextMsgId();
      this.contentOut.push({ id: msgId, session, at: W.now, link: this.live()! });
      parts.push({ msgId, seqno: this.server.serverSeq(session, true), body: e });
    }
    const id = this.server.nextMsgId();
    this.send(session, this.server.container(parts), { content: false, msgId: id });
  }
  error(m: InMsg, code: number, text: string) {
    this.remove(m);
    this.callOf(m)?.errors.add(text);
    this.send(m.sessionId, rpcResult(m.msgId, rpcError(code, text)));
  }
  /** the identifier the server complains about: that of the packet's outer message */
  outer(m: InMsg) {
    return m.container ?? m.msgId;
  }
  /** what the client was last told to use; null when not tracked */
  expectedSalt: bigint | null = null;
  saltReset = false;
  refused = new Set<string>();
  /** identifiers announced by msg_detailed_info, acknowledged without being delivered */
  announced = new Set<bigint>();
  lastLoss = 0;
  loss() {
    this.lastLoss = this.contentOut.length;
  }
  detailed(m: InMsg | null) {
    const id = this.server.nextMsgId() + 4n * 1000n;
    this.announced.add(id);
    const w = new Bytes().u32(m ? ID.detailed : ID.newDetailed);
    if (m) w.i64(m.msgId);
    this.send(this.server.lastSession, w.i64(id).u32(100).u32(0).done(), { content: false });
  }
  /** Every content message delivered since the last loss must have been acknowledged in a packet the server took. */
  checkAcks() {
    const good = new Set(this.server.ackLog.filter((a) => !this.refused.has(`${a.session}:${a.msg.container ?? a.msg.msgId}`)).map((a) => a.id));
    const known = new Set([...this.contentOut.map((c) => c.id), ...this.announced]);
    for (const a of this.server.ackLog) check(known.has(a.id), () => `acknowledged ${a.id}, which was never sent`, "a message is acknowledged that was never sent");
    this.contentOut.slice(this.lastLoss, -1).forEach((c, i) => {
      check(good.has(c.id), () => `content message ${i + this.lastLoss + 1} of ${this.contentOut.length} is not acknowledged`, "a content message is never acknowledged");
    });
    if (!this.lastLoss) for (const id of this.announced) check(good.has(id), "an announced answer is never acknowledged");
  }
  dropPacketOf(m: InMsg) {
    this.refused.add(`${m.sessionId}:${this.outer(m)}`);
    for (const x of this.open.filter((x) => this.outer(x) === this.outer(m) && x.sessionId === m.sessionId)) {
      this.remove(x);
      const c = this.callOf(x);
      if (c) c.resendAllowance++;
    }
  }
  refuseSalt(m: InMsg) {
    this.server.salt = this.server.salt * 3n + 7n & 0x7fffffffffffffffn;
    this.dropPacketOf(m);
    if (this.expectedSalt !== null && m.sessionId === this.server.lastSession) this.expectedSalt = this.server.salt, this.saltReset = false;
    this.send(m.sessionId, badSalt(this.outer(m), m.seqno, this.server.salt), { content: false });
  }
  refuseMsg(m: InMsg, code: number) {
    this.dropPacketOf(m);
    if (code !== 16 && code !== 48) this.everythingMayBeResent();
    this.send(m.sessionId, badMsg(this.outer(m), m.seqno, code), { content: false });
  }
  everythingMayBeResent() {
    this.saltReset = true;
    this.loss();
    for (const c of this.calls) if (c.status !== "ok") c.resendAllowance++;
  }
  drop() {
    const l = this.live();
    if (!l) return;
    for (const c of this.calls) if (c.status === "pending") c.lossWhile = true;
    // a send in progress fails, although its packet may have arrived
    if (this.net.pendingSends.length) this.everythingMayBeResent();
    this.server.exactSeq = false;
    this.loss();
    l.conn.drop(l);
  }
  refuse() {
    for (const c of this.calls) if (c.status === "pending") c.lossWhile = true;
    this.net.pendingOpens[0].refuse();
  }
  app(what: "disconnect" | "connect") {
    if (what === "disconnect") {
      this.server.exactSeq = false;
      this.saltReset = true;
      this.loss();
      this.disconnects++;
      this.appDisconnected = true;
      for (const c of this.calls) if (c.status === "pending") c.lossWhile = true;
      if (this.net.pendingSends.length) this.everythingMayBeResent();
      this.client.disconnect();
      this.open = [];
    } else {
      this.appDisconnected = false;
      this.client.connect().catch(() => {});
    }
  }
  push(text: string) {
    this.pushed.push(text);
    this.send(this.server.lastSession, apiCodec.encode({ _: "updateServiceNotification", inbox_date: undefined, type: text, message: text, media: { _: "messageMediaEmpty" }, entities: [] }));
  }
  newSession() {
    this.server.salt = this.server.salt * 5n + 1n & 0x7fffffffffffffffn;
    if (this.expectedSalt !== null) this.expectedSalt = this.server.salt, this.saltReset = false;
    this.send(this.server.lastSession, newSession(this.server.inbox.at(-1)?.msgId ?? 4n, BigInt(this.server.salt & 0xffffffn), this.server.salt));
  }
  key(): string {
    return JSON.stringify([
      this.calls.map((c) => [c.status, c.sent.length, c.results.size, c.errors.size]),
      this.open.map((m) => [this.callOf(m)?.n ?? "p", m.container !== null, m.sessionId === this.server.lastSession]),
      this.net.live.length,
      this.net.pendingOpens.length,
      this.net.pendingSends.length,
      this.heldCrypto.length,
      this.net.holdSends,
      this.contentOut.filter((c) => !this.server.acked.has(c.id)).length,
      W.now % 100_000,
      this.updates.length,
    ]);
  }
  /** A fair environment: everything is accepted, answered and timed out until nothing is left to do. */
  async finish(rounds = 12) {
    this.net.holdSends = false;
    W.digestGate = null;
    this.net.autoOpen = true;
    for (let i = 0; i < rounds; i++) {
      for (let k = 0; k < 60; k++) {
        await settle();
        if (this.net.pendingSends.length) {
          this.net.pendingSends[0].complete();
          continue;
        }
        if (this.heldCrypto.length) {
          this.heldCrypto.shift()!();
          continue;
        }
        if (this.net.pendingOpens.length) {
          this.net.pendingOpens[0].accept();
          continue;
        }
        const m = this.answerable()[0];
        if (!m) break;
        if (this.serverVerdict(m)) continue;
        this.answer(m);
      }
      if (this.calls.every((c) => c.status !== "pending") && i >= 2) break;
      await advance(4_000);
    }
    this.net.checkViolation();
  }
  /** What a server that checks salts and times says about a message; true when it refused it. */
  serverVerdict(m: InMsg): boolean {
    if (this.opt.checkTime) {
      const t = Number(m.msgId >> 32n);
      const now = Math.floor(W.now / 1000) + this.server.timeSkew;
      if (t < now - 300) return this.refuseMsg(m, 16), true;
      if (t > now + 30) return this.refuseMsg(m, 17), true;
    }
    if (m.salt !== this.server.salt) {
      this.dropPacketOf(m);
      if (this.expectedSalt !== null && m.sessionId === this.server.lastSession) this.expectedSalt = this.server.salt, this.saltReset = false;
    this.send(m.sessionId, badSalt(this.outer(m), m.seqno, this.server.salt), { content: false });
      return true;
    }
    return false;
  }
  checkCalls() {
    for (const c of this.calls) {
      check(c.status !== "pending", () => `call ${c.n} never settles (sent ${c.sent.length} time(s), answered ${c.sent.filter((m) => this.answered.includes(m)).length}) although the server answers everything it receives`, "a call never settles");
      if (c.status === "ok") {
        const got = c.value?._ === "help.deepLinkInfoEmpty" ? "<empty>" : c.value?.message;
        check(c.results.has(got), () => `call ${c.n} resolved to ${show(c.value)}, the server answered ${[...c.results]}`, "a call resolved to a foreign result");
      } else {
        const e = c.error;
        const text = e?.errorMessage ?? e?.error_message;
        if (typeof text === "string") {
          check(c.errors.has(text), () => `call ${c.n} rejected with ${text}, which the server did not send for it`, "a call rejected with a foreign error");
        } else {
          check(e instanceof ConnectionError || e instanceof RetryError || e instanceof ConnClosed, () => `call ${c.n} rejected with ${show(e)}`, `a call rejected with ${e?.name}`);
          check(c.lossWhile, () => `call ${c.n} rejected with ${show(e)} although the connection was never lost while it was in progress`, "a call rejected without a loss");
        }
      }
    }
  }
  checkTransmissions() {
    for (const c of this.calls) {
      check(c.sent.length <= 1 + c.resendAllowance, () => `call ${c.n} was transmitted ${c.sent.length} times with ${c.resendAllowance} reason(s) to repeat it`, "a call is transmitted more often than refused");
    }
  }
  checkUpdates(exact: boolean) {
    const got = this.updates.map((u) => u.type);
    for (const g of got) check(this.pushed.includes(g), "an update the server never sent");
    if (exact) check(JSON.stringify(got) === JSON.stringify(this.pushed), () => `updates ${got}, pushed ${this.pushed}`, "updates lost, repeated or reordered");
  }
  checkNoUnhandled() {
    this.net.checkViolation();
    check(W.unhandled.length === 0, () => `unhandled rejection: ${show(W.unhandled[0])} ${(W.unhandled[0] as any)?.stack ?? ""}`, "unhandled rejection");
  }
}
function check2(c: boolean, m: string) {
  if (!c) W.unhandled.push(new Error(m));
}
export { advance, ID, settle, timers, turn, W };
export { Bytes };
