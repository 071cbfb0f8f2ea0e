// Pings: an open connection is never idle for so long that the server closes it.
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, ID, Rpc, settle, timers, W } from "../lib/rpc.ts";
import type { InMsg, Link } from "../lib/mt.ts";
import { Rd } from "../lib/tl.ts";

const INTERVAL = 56_000, SLACK = 3_000;

async function run(ctl: Ctl, steps: number, acts: string[]) {
  const r = new Rpc(ctl);
  const on = (a: string) => acts.includes(a);
  /** pings the server has taken on the connection, and when it last had to do with one */
  let link: Link | undefined, since = W.now, deadline = Infinity, last = 0, taken = 0, reasons = 0;
  const seen = new Set<InMsg>();
  const begun = W.now;
  const pings = () => r.answerable().filter((m) => m.id === ID.pingDelay);
  const observe = () => {
    const l = r.live();
    if (l !== link) {
      link = l;
      since = W.now;
      deadline = Infinity;
      reasons++;
    }
    if (!l) return;
    for (const m of r.open) {
      if (m.id !== ID.pingDelay || seen.has(m)) continue;
      seen.add(m);
      taken++;
      since = last = W.now;
      // the identifier of the ping, then in how many seconds the server is to close the connection
      const body = new Rd(m.body.subarray(4));
      body.i64();
      const delay = body.u32();
      check(delay > 0 && delay < 600, () => `the server is asked to close the connection after ${delay} s`, "pings that keep a dead connection open");
      deadline = W.now + delay * 1000;
    }
    if (pings().length) {
      // the server is the one who is late
      since = W.now;
      if (deadline - W.now < SLACK) deadline = Infinity;
      return;
    }
    check(W.now - since <= INTERVAL + SLACK, () => `the connection has been open for ${(W.now - since) / 1000} s without a ping`, "a connection without pings");
    check(W.now < deadline, () => `the server closes the connection, as it was asked to ${(W.now - last) / 1000} s ago and not since`, "a connection closed for want of pings");
  };
  const pass = async (ms: number) => {
    for (const end = W.now + ms; W.now < end;) {
      await advance(Math.min(2000, end - W.now));
      await settle();
      observe();
    }
  };
  await r.start();
  observe();
  let disconnected = false;
  for (let i = 0; i < steps; i++) {
    const a: [string, () => void | Promise<void>][] = [];
    const m = r.answerable()[0];
    if (m) a.push(["answer", () => void (r.serverVerdict(m) && reasons++ || r.answer(m))]);
    if (r.net.pendingOpens.length) a.push(["accept", () => void r.net.pendingOpens[0].accept()]);
    const t = timers()[0];
    if (t) a.push(["next timer", () => pass(Math.max(0, t.at - W.now))]);
    a.push(["a minute", () => pass(60_000)]);
    if (m && on("refusals")) {
      const pushed = () => void reasons++;
      a.push(["salt", () => (pushed(), r.refuseSalt(m))]);
      for (const code of [16, 17, 32]) a.push([`bad_msg ${code}`, () => (pushed(), r.refuseMsg(m, code))]);
    }
    if (on("losses")) {
      if (r.live()) a.push(["drop", () => (reasons++, r.drop())]);
      if (r.net.pendingOpens.length) a.push(["refuse", () => (reasons++, r.refuse())]);
    }
    if (on("calls") && r.calls.length < 2 && !disconnected) a.push(["call", () => void r.invoke()]);
    if (on("app")) a.push(disconnected ? ["connect", () => (disconnected = false, reasons++, r.app("connect"))] : ["disconnect", () => (disconnected = true, r.app("disconnect"))]);
    const k = ctl.choose(a.length, a.map((x) => x[0]).join("|"));
    ctl.step(a[k][0]);
    await a[k][1]();
    await settle();
    observe();
    r.net.checkViolation();
    if (disconnected) {
      check(!r.live(), "a connection is open after disconnecting");
      if (!r.net.pendingOpens.length) check(!timers().some((t) => t.at - W.now > 30_000), () => `something still waits for ${(timers().at(-1)!.at - W.now) / 1000} s after disconnecting`, "a timer is left after disconnecting");
    }
  }
  // all is answered from here on
  r.net.autoOpen = true;
  if (disconnected) r.app("connect");
  let before = -1;
  for (let minute = 0; minute < 5; minute++) {
    for (let s = 0; s < 20; s++) {
      while (r.net.pendingOpens.length) {
        r.net.pendingOpens[0].accept();
        await settle();
      }
      for (let m = r.answerable()[0]; m; m = r.answerable()[0]) {
        if (r.serverVerdict(m)) reasons++;
        else r.answer(m);
        await settle();
        observe();
      }
      await pass(3000);
    }
    check(minute < 1 || taken > before, "no ping in a minute", "a connection without pings");
    before = taken;
  }
  // nor are there more of them than it takes
  const most = 2 * (1 + reasons) + Math.ceil((W.now - begun) / INTERVAL) * 2;
  check(taken <= most, () => `${taken} pings in ${(W.now - begun) / 1000} s`, "a flood of pings");
  r.checkCalls();
  r.checkNoUnhandled();
  ctl.outcome(`${taken} pings, ${reasons}`);
}

export default {
  id: "R08",
  level: "model_checking",
  rule: "every sequence of answers, refusals of pings (salt, time, session), losses, waiting, calls and disconnecting within the deviation budget, with what the server was asked to do watched every second",
  assumptions: ["the process is not suspended", "once the explored prefix is over, the server answers everything"],
  exhaustive: true,
  scenarios(tier) {
    const budget = tier === "thorough" ? 4 : 3;
    const mk = (name: string, steps: number, acts: string[]): Scenario => ({ name, budget, shard: true, run: (ctl) => run(ctl, steps, acts) });
    return [mk("refused pings", 9, ["refusals"]), mk("lost connections", 9, ["losses"]), mk("calls", 8, ["calls", "refusals"]), mk("the application disconnects", 8, ["app", "losses"])];
  },
} satisfies CheckDef;
