import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, Rpc, settle, timers, W } from "../lib/rpc.ts";

interface Cfg {
  steps: number;
  acts: string[];
}

async function run(ctl: Ctl, cfg: Cfg) {
  const r = new Rpc(ctl);
  r.net.autoOpen = false;
  const states: boolean[] = [];
  let wanted = false; // the last thing the application asked for
  const connects: { settled: string | null; cancelled: boolean }[] = [];
  const on = (a: string) => cfg.acts.includes(a);
  const { ClientEncrypted } = await import("/repo/client/2_client_encrypted.ts");
  const { testKey } = await import("../lib/mt.ts");
  r.client = new ClientEncrypted("2", 1, { transportProvider: r.net.provider });
  await r.client.setAuthKey(testKey());
  r.client.serverSalt = r.server.salt;
  r.client.onConnectionStateChange = (c: boolean) => void states.push(c);
  const connect = () => {
    wanted = true;
    r.appDisconnected = false;
    const rec: { settled: string | null; cancelled: boolean } = { settled: null, cancelled: false };
    connects.push(rec);
    r.client.connect().then(() => rec.settled = "ok", (e: Error) => rec.settled = e.name);
  };
  const disconnect = () => {
    wanted = false;
    r.appDisconnected = true;
    for (const c of connects) if (c.settled === null) c.cancelled = true;
    for (const c of r.calls) if (c.status === "pending") c.lossWhile = true;
    r.client.disconnect();
  };
  for (let i = 0; i < cfg.steps; i++) {
    const a: [string, () => void | Promise<void>][] = [];
    const po = r.net.pendingOpens;
    const live = r.live();
    if (!connects.length) a.push(["connect", connect]);
    if (po.length) a.push(["accept", () => void po[0].accept()]);
    const m = r.answerable()[0];
    if (m) a.push(["answer", () => void (r.serverVerdict(m) || r.answer(m))]);
    if (r.calls.length < 1 && connects.length) {
      a.push(["call", () => {
        const d = r.client.isDisconnected;
        r.invoke().lossWhile ||= d;
      }]);
    }
    if (!a.length) {
      if (timers()[0]) a.push(["next timer", () => advance(Math.max(0, timers()[0].at - W.now))]);
      else a.push(["wait", () => advance(1000)]);
    }
    if (po.length) a.push(["refuse", () => (r.refuse())]);
    if (live) a.push(["drop", () => r.drop()]);
    if (on("time") && a[0][0] !== "next timer" && timers()[0]) a.push(["next timer", () => advance(Math.max(0, timers()[0].at - W.now))]);
    if (wanted && on("disconnect")) a.push(["disconnect", disconnect]);
    if (!wanted && connects.length && on("connect")) a.push(["connect", connect]);
    if (wanted && on("connect2")) a.push(["connect again", connect]);
    if (m && on("bad")) a.push(["bad_msg 32", () => r.refuseMsg(m, 32)]);
    const k = ctl.choose(a.length, a.map((x) => x[0]).join("|"));
    ctl.step(a[k][0]);
    await a[k][1]();
    await settle();
    r.net.checkViolation();
    check(r.net.live.length <= 1, () => `${r.net.live.length} connections are open at once`, "two connections of one session at once");
    check(r.client.isConnected === (r.net.live.length === 1), "isConnected does not tell whether a connection is open");
    ctl.state(JSON.stringify([wanted, r.net.live.length, po.length, r.client.isDisconnected, timers().map((t) => t.at - W.now).filter((x) => x < 10_000), r.calls.map((c) => c.status), states.at(-1)]));
  }
  // a fair environment from here on
  const opens = r.net.opens;
  const pendingAtEnd = r.net.pendingOpens.length;
  if (wanted) {
    const initial = connects.length === 1 && connects[0].settled !== "ok" && connects[0].settled !== null;
    await r.finish(4);
    if (!initial && !(connects.at(-1)!.settled !== null && connects.at(-1)!.settled !== "ok")) {
      check(r.net.live.length === 1, () => "the client does not connect again although the network is back", "the connection is not re-established");
      if (r.calls.length === 0) r.invoke();
      await r.finish();
      r.checkCalls();
    }
  } else {
    r.net.autoOpen = false;
    while (r.net.pendingOpens.length) {
      r.net.pendingOpens[0].accept();
      await settle();
    }
    check(r.net.live.length === 0, "a connection is open after the application disconnected", "connected after disconnect");
    await advance(300_000);
    check(r.net.opens - opens <= 0 || pendingAtEnd > 0 && r.net.opens - opens <= 0, () => `${r.net.opens - opens} connection attempt(s) after the application disconnected`, "reconnects after disconnect");
    check(r.net.live.length === 0, "a connection is open after the application disconnected", "connected after disconnect");
    check(r.client.isDisconnected, "isDisconnected is false after disconnecting");
    for (const c of r.calls) {
      check(c.status !== "pending", "a call stays pending after the application disconnected", "a call stays pending after disconnect");
    }
  }
  await settle();
  for (let i = 1; i < states.length; i++) check(states[i] !== states[i - 1], () => `state notifications ${states}`, "the same connection state is notified twice");
  if (states.length) check(states.at(-1) === (r.net.live.length === 1), () => `the last notified state is ${states.at(-1)}, the connection is ${r.net.live.length ? "open" : "closed"}`, "the last notified state is wrong");
  for (const c of connects) check(c.settled !== null, "connect() never settles", "connect never settles");
  r.checkNoUnhandled();
  ctl.outcome(JSON.stringify([states, connects.map((c) => c.settled), r.calls.map((c) => c.status)]));
}

export default {
  id: "R05",
  level: "model_checking",
  rule: "every sequence of connect, disconnect, accepted and refused opens, losses, timer firings and refusals within the deviation budget; an execution is non-trivial when its sequence of state notifications and results is new",
  assumptions: ["after the explored prefix the network accepts every connection"],
  exhaustive: true,
  scenarios(tier) {
    const b = tier === "thorough" ? 6 : 5;
    const mk = (name: string, cfg: Cfg): Scenario => ({ name, budget: b, shard: true, run: (ctl) => run(ctl, cfg) });
    return [
      mk("losses and refusals", { steps: 12, acts: ["time"] }),
      mk("application disconnects", { steps: 11, acts: ["disconnect", "connect", "time"] }),
      mk("repeated connects", { steps: 9, acts: ["disconnect", "connect", "connect2"] }),
      mk("invalidated sessions", { steps: 10, acts: ["bad", "disconnect", "connect"] }),
    ];
  },
} satisfies CheckDef;
