// Exploration of one client against every behaviour of server, network and application
// within a deviation budget. The properties differ in what they check at the end.
import type { Ctl, Scenario } from "./explore.ts";
import { advance, ID, Rpc, type RpcOptions, settle, timers, W } from "./rpc.ts";
import { Bytes } from "./tl.ts";
import { rpcResult } from "./mt.ts";

export type Act = { name: string; run: () => void | Promise<void> };
export interface RpcCfg {
  calls: number;
  large?: number;
  acts: Set<string>;
  hold?: boolean;
  crypto?: boolean;
  /** check that every packet carries the salt the server last announced */
  salt?: boolean;
  /** one more call at the very end */
  last?: boolean;
  manualOpen?: boolean;
  steps: number;
  opt?: RpcOptions;
}

export function actions(r: Rpc, cfg: RpcCfg, st: { disc: boolean }): Act[] {
  const a: Act[] = [];
  const on = (n: string) => cfg.acts.has(n);
  const ans = r.answerable();
  const first = ans[0];
  const live = r.live();
  const reqs = ans.filter((m) => m.id !== ID.pingDelay);
  // the canonical next step comes first
  if (r.net.pendingOpens.length) a.push({ name: "accept", run: () => void r.net.pendingOpens[0].accept() });
  if (r.net.pendingSends.length) a.push({ name: "send completes", run: () => r.net.pendingSends[0].complete() });
  if (r.heldCrypto.length) a.push({ name: "encryption completes", run: () => r.heldCrypto.shift()!() });
  if (r.calls.length < cfg.calls) a.push({ name: "call", run: () => void r.invoke(r.calls.length === cfg.large) });
  if (first) a.push({ name: "answer oldest", run: () => void (r.serverVerdict(first) || r.answer(first)) });
  if (!a.length) a.push({ name: "end", run: () => {} });
  // deviations
  if (r.net.pendingOpens.length && on("refuse")) a.push({ name: "refuse open", run: () => r.refuse() });
  if (first && a[0].name !== "answer oldest" && !a.some((x) => x.name === "answer oldest")) a.push({ name: "answer oldest", run: () => void r.answer(first) });
  if (first) {
    if (on("salt")) a.push({ name: "bad_server_salt", run: () => r.refuseSalt(first) });
    for (const code of [16, 17, 32, 33, 48]) if (on(`bad${code}`)) a.push({ name: `bad_msg ${code}`, run: () => r.refuseMsg(first, code) });
  }
  const last = ans.at(-1);
  if (last && last !== first) {
    a.push({ name: "answer newest", run: () => void r.answer(last) });
    if (on("salt")) a.push({ name: "bad_server_salt for newest", run: () => r.refuseSalt(last) });
    if (on("container")) a.push({ name: "answer all in a container", run: () => r.answerTogether(ans) });
    if (on("container")) a.push({ name: "answer all in a container, newest first", run: () => r.answerTogether(ans.slice().reverse()) });
  }
  if (reqs[0]) {
    if (on("gzip")) a.push({ name: "answer gzip result", run: () => void r.answer(reqs[0], "gzip-result") }, { name: "answer gzip all", run: () => void r.answer(reqs[0], "gzip-all") });
    if (on("error")) a.push({ name: "rpc_error", run: () => r.error(reqs[0], 400, `TEST_${r.callOf(reqs[0])!.n}`) });
    if (on("noinit")) {
      a.push({
        name: "CONNECTION_NOT_INITED",
        run: () => {
          r.callOf(reqs[0])!.resendAllowance++;
          r.error(reqs[0], 400, "CONNECTION_NOT_INITED");
          r.callOf(reqs[0])!.errors.delete("CONNECTION_NOT_INITED");
        },
      });
    }
  }
  if (live) {
    if (on("drop")) a.push({ name: "drop", run: () => r.drop() });
    if (on("push") && r.server.lastSession) a.push({ name: "push update", run: () => r.push(`u${r.pushed.length}`) });
    if (on("newsession") && r.server.lastSession) a.push({ name: "new_session_created", run: () => r.newSession() });
    if (on("detailed") && r.server.lastSession) {
      a.push({ name: "msg_new_detailed_info", run: () => r.detailed(null) });
      if (first) a.push({ name: "msg_detailed_info", run: () => r.detailed(first) });
    }
    if (on("stray") && r.server.lastSession) {
      a.push({ name: "result for an unknown request", run: () => void r.send(r.server.lastSession, rpcResult(r.server.nextMsgId() + 1n, new Bytes().u32(0x66AFA166).done())) });
    }
    if (on("transport404")) a.push({ name: "transport error -429", run: () => live.conn.deliver(live, new Bytes().u32(-429).done()) });
    if (on("garbage")) {
      a.push({
        name: "garbage packet",
        run: () => {
          r.everythingMayBeResent();
          live.conn.deliver(live, new Uint8Array(56).fill(7));
        },
      });
    }
  }
  if (on("time")) {
    const t = timers()[0];
    if (t) a.push({ name: `timer +${Math.round((t.at - W.now) / 1000)}s`, run: () => advance(Math.max(0, t.at - W.now)) });
  }
  if (on("clock")) {
    a.push({ name: "clock -7s", run: () => void (W.now -= 7_000) }, { name: "clock +1s", run: () => void (W.now += 1_000) }, { name: "clock +20ms", run: () => void (W.now += 20) });
  }
  if (on("disconnect")) {
    if (!st.disc) a.push({ name: "disconnect", run: () => (st.disc = true, r.app("disconnect")) });
    else a.push({ name: "connect", run: () => (st.disc = false, r.app("connect")) });
  }
  return a;
}

export async function runRpc(ctl: Ctl, cfg: RpcCfg, end: (r: Rpc) => void | Promise<void>) {
  const r = new Rpc(ctl, cfg.opt);
  const st = { disc: false };
  await r.start();
  r.net.holdSends = cfg.hold ?? false;
  r.net.autoOpen = !cfg.manualOpen;
  if (cfg.salt) r.expectedSalt = r.server.salt;
  if (cfg.crypto) r.holdCrypto();
  for (let i = 0; i < cfg.steps; i++) {
    const a = actions(r, cfg, st);
    const k = ctl.choose(a.length, a.map((x) => x.name).join("|"));
    if (a[k].name === "end") break;
    ctl.step(a[k].name);
    await a[k].run();
    await settle();
    r.net.checkViolation();
    ctl.state(r.key());
  }
  if (st.disc) r.app("connect");
  await r.finish();
  if (cfg.last) {
    r.invoke();
    await r.finish();
  }
  for (const c of r.calls) ctl.note(`call ${c.n}: ${c.status} ${c.value?.message ?? c.error?.message ?? ""}`);
  ctl.outcome(JSON.stringify([r.calls.map((c) => [c.status, c.sent.length]), r.updates.length, r.server.sessions.size]));
  await end(r);
}

export function rpcScenario(name: string, budget: number, cfg: RpcCfg, end: (r: Rpc) => void | Promise<void>): Scenario {
  return { name, budget, shard: true, run: (ctl) => runRpc(ctl, cfg, end) };
}
