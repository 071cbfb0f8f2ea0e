// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import { check, type Ctl, type Scenario } from "../lib/explore.ts";
import { advance, settle, timers, fireTimer, turn, W } from "../lib/world.ts";
import { Api } from "/repo/2_tl.ts";
import { App } from "../lib/client.ts";
import { Cloud, type CloudRequest, Disk, ModelStorage } from "../lib/cloud.ts";
void [turn];

interface Call {
  n: number;
  params: any;
  status: "pending" | "ok" | "err";
  value?: any;
  error?: any;
  /** a connection was lost or refused, or the application disconnected, while it was pending */
  disturbed: boolean;
}
export interface Cfg {
  name: string;
  home?: string;
  /** calls: "m" main, "4" data center 4, "d"/"d4" downloads, "u" upload; or "idle", "off", "on", "forget4", "restart" */
  script: string[];
  acts: string[];
  budget: number;
  /** with temporary keys */
  pfs?: boolean;
}
const FN = "help.getDeepLinkInfo";

export function scenario(cfg: Cfg): Scenario {
  return {
    name: cfg.name,
    budget: cfg.budget,
    shard: true,
    run: async (ctl) => await run(ctl, cfg),
  };
}
async function run(ctl: Ctl, cfg: Cfg) {
  const home = cfg.home ?? "2";
  const test = home.slice(1);
  const acts = new Set(cfg.acts);
  const c = new Cloud(ctl);
  c.pfs = cfg.pfs ?? false;
  c.homeKey(home);
  const calls: Call[] = [];
  const disk = new Disk();
  let client: any;
  let online = true;
  const want = (call: Call) => {
    const p = call.params;
    const dc = p.type === "upload" ? home : p.dc ?? home;
    return { dc, media: p.type !== undefined };
  };
  const served = new Map<number, CloudRequest[]>();
  c.onRequest = (r) => {
    if (r.q._ !== FN) return undefined;
    const n = Number(r.q.path);
    const call = calls[n];
    check(call, "a request nobody made is received");
    const w = want(call);
    check(r.dc === w.dc && r.media === w.media, () => `call ${n} ${JSON.stringify(call.params)} is served by ${r.dc}${r.media ? " media" : ""}`, "a request goes to another data center");
    check(r.wrapped.noUpdates || !(r.media || r.dc !== home), "updates are asked for on another connection than the main one");
    const i = r.key.init;
    check(i.api_id === 5 && i.app_version === "1" && i.device_model === "d" && i.system_version === "1" && i.layer === Api.LAYER, "a request is made with other parameters of the client");
    check(call.status !== "ok", "a request that succeeded is sent again");
    served.set(n, [...(served.get(n) ?? []), r]);
    return { result: { _: "help.deepLinkInfo", message: `${n}@${r.dc}`, entities: [] } };
  };
  let rebooting = false;
  const boot = async (first: boolean) => {
    rebooting = true;
    client = c.create(new ModelStorage(disk), { isPerfectForwardSecrecyEnabled: c.pfs, ...(first ? { authString: App.authString({ dc: home }) } : {}) });
    let done = false, err: unknown = null;
    client.start({ botToken: "1:a" }).then(() => done = true, (e: unknown) => (err = e));
    await c.drain();
    check(!err, () => `start fails: ${err}`, "start fails");
    check(done, "start does not end");
    rebooting = false;
  };
  await boot(true);
  check(!c.handshakes.length, "a key is made although one was imported");
  if (acts.has("open")) c.net.autoOpen = false;
  const disturb = () => {
    for (const k of calls) if (k.status === "pending") k.disturbed = true;
  };
  /** the client itself closed a connection whose key is about to expire: what was being asked there is given up */
  const renewed = new Set<any>();
  /** where an attempt to make or bind a temporary key met a loss, until another succeeds */
  const broken = new Set<string>();
  const lost = (x: { dc: string; isMedia: boolean }) => c.pfs && broken.add(`${x.dc}${x.isMedia}`);
  if (c.pfs) {
    c.net.onClientClose = (link) => {
      if (online && c.keys.some((k) => k.temporary && k.bound && k.dc === link.conn.dc && k.media === link.conn.isMedia && k.expires - W.now < 300_000)) {
        for (const k of pending()) if (link.conn.dc === home && !link.conn.isMedia || want(k).dc === link.conn.dc && want(k).media === link.conn.isMedia) k.disturbed = true;
      }
    };
    c.onBound = (k) => {
      broken.delete(`${k.dc}${k.media}`);
      if (c.keys.some((o) => o !== k && o.temporary && o.dc === k.dc && o.media === k.media && o.bound && o.expires > W.now - 600_000) && !rebooting) renewed.add(k);
    };
  }
  const call = (what: string) => {
    const params: any = {};
    if (what[0] === "d") params.type = "download";
    if (what[0] === "u") params.type = "upload";
    const dc = what.replace(/^[dum]/, "");
    if (dc) params.dc = dc + test;
    const k: Call = { n: calls.length, params, status: "pending", disturbed: !online };
    // authorization might have to be brought over from the main connection
    if (broken.has(`${want(k).dc}${want(k).media}`) || broken.has(`${home}false`)) k.disturbed = true;
    calls.push(k);
    ctl.step(`call ${k.n} ${JSON.stringify(params)}`);
    client.invoke({ _: FN, path: String(k.n) }, what === "m" ? undefined : params).then((v: any) => {
      check2(k.status === "pending", "a call settles twice");
      k.status = "ok";
      k.value = v;
    }, (e: any) => {
      k.status = "err";
      k.error = e;
    });
  };
  let problem: string | null = null;
  const check2 = (b: boolean, s: string) => {
    if (!b) problem ??= s;
  };
  /** where calls succeeded before the last restart, and how many keys there were then */
  const known = new Set<string>();
  let made = 0;
  const ok = () => {
    c.ok();
    for (const h of c.handshakes.slice(made)) check(!known.has(h.replace(/^.*with /, "")), () => `${h}: a key is made although one was stored before the restart`, "a key is made although one is stored");
    check(!problem, problem ?? "");
    for (const k of calls) {
      if (k.status === "ok") {
        check(k.value?.message === `${k.n}@${want(k).dc}`, () => `call ${k.n} returns ${k.value?.message}`, "a call returns another result");
        check(served.has(k.n), "a call returns a result nobody gave");
      }
      if (k.status === "err") check(k.disturbed, () => `call ${k.n} fails although no connection was lost: ${k.error?.stack ?? k.error}`, "a call fails although no connection was lost");
    }
    // one connection per data center is enough for ordinary requests
    const ordinary = c.live.filter((l) => !l.conn.isMedia);
    for (const l of ordinary) check(ordinary.filter((x) => x.conn.dc === l.conn.dc).length === 1 || c.net.pendingOpens.length || handshaking(l.conn.dc), "two ordinary connections to one data center");
    for (const l of c.live) check([home, "4" + test, "1" + test].includes(l.conn.dc), "a connection to another data center");
  };
  const handshaking = (dc: string) => c.waiting.some((w) => w.request === null && w.link.conn.dc === dc);
  const pending = () => calls.filter((k) => k.status === "pending");
  let at = 0;
  const special = async (s: string) => {
    ctl.step(s);
    if (s === "idle") {
      await pump();
      await advance(7 * 60_000 + 1000);
      const l = c.live.filter((l) => !l.conn.isMedia && l.conn.dc !== home);
      check(!l.length, "a connection to another data center stays open when idle");
    } else if (s === "off") {
      disturb();
      online = false;
      const p = client.disconnect();
      let done = false;
      p.then(() => done = true);
      await settle();
      check(done, "disconnect does not end");
      await pump();
      await advance(60_000);
      await pump();
      check(!c.live.length, () => `a connection to ${c.live[0].conn.dc} stays open after disconnect`, "a connection stays open after disconnect");
      check(!pending().length, () => `call ${pending()[0].n} never ends`, "a call does not end although the client disconnected");
    } else if (s === "on") {
      let err: any = null, done = false;
      client.connect().then(() => done = true, (e: any) => err = e);
      await c.drain();
      if (!done) await pump();
      check(done && !err, () => `connect fails: ${err}`, "connect fails");
      online = true;
    } else if (s === "forget4") {
      for (const k of c.keys) if (k.dc === "4" + test) k.user = null;
    } else if (s === "uninit") {
      for (const k of c.keys) k.init = null;
    } else if (s === "eve") {
      // a day passes, until shortly before the first key expires
      await pump();
      const at = Math.min(...c.keys.filter((k) => k.temporary && !k.gone && k.expires > W.now).map((k) => k.expires)) - 90_000;
      if (at > W.now) W.now = at;
    } else if (s === "minute") {
      await advance(60_000);
    } else if (s === "sleep") {
      // the computer sleeps for longer than keys are valid
      await pump();
      disturb();
      c.suspended = true;
      for (const k of c.keys) if (k.temporary) broken.add(`${k.dc}${k.media}`);
      W.now += 90_000_000;
    } else if (s === "forgettemp") {
      disturb();
      for (const k of c.keys) {
        if (k.temporary) {
          k.gone = true;
          // what is asked until the client finds out fails
          broken.add(`${k.dc}${k.media}`);
        }
      }
    } else if (s === "restart") {
      await pump();
      await client.disconnect();
      await settle();
      check(!c.live.length, "a connection stays open after disconnect");
      c.net.links = [];
      for (const k of calls) if (k.status === "ok") known.add(`${want(k).dc}${want(k).media ? " media" : ""}`);
      made = c.handshakes.length;
      await boot(false);
    }
  };
  const pump = async () => {
    // let everything that was started end, with an undisturbed network
    for (let i = 0; i < 200; i++) {
      await settle();
      if (c.net.pendingOpens.length) {
        c.net.pendingOpens[0].accept();
        continue;
      }
      if (c.waiting.length) {
        c.waiting[0].go();
        continue;
      }
      if (!pending().length && !c.net.pendingOpens.length) return;
      if (!online && !pending().length) return;
      const t = timers()[0];
      if (!t) return;
      fireTimer(t);
    }
  };
  const specials = new Set(["idle", "off", "on", "forget4", "uninit", "restart", "eve", "minute", "sleep", "forgettemp"]);
  for (let i = 0; i < 120; i++) {
    await settle();
    ok();
    const opts: [string, () => void | Promise<void>][] = [];
    const next = cfg.script[at];
    const start = async () => {
      at++;
      if (specials.has(next)) await special(next);
      else call(next);
    };
    const go = (k: number) => () => {
      const w = c.waiting[k];
      ctl.step(w.label);
      w.go();
    };
    const open = c.net.pendingOpens[0];
    if (open) opts.push(["open", () => (ctl.step(`a connection to ${open.conn.dc} is opened`), void open.accept())]);
    else if (c.waiting.length) opts.push(["go", go(0)]);
    else if (next && (next !== "off" || true)) opts.push(["next", start]);
    else if (pending().length && i < 100) {
      const t = timers()[0];
      if (t) opts.push(["time", () => (ctl.step("time passes"), fireTimer(t))]);
      else break;
    } else break;
    if (open) {
      opts.push(["refuse", () => {
        ctl.step(`a connection to ${open.conn.dc} is refused`);
        disturb();
        lost(open.conn);
        open.refuse();
      }]);
    }
    if (opts[0][0] === "go") {
      for (let k = 1; k < Math.min(c.waiting.length, 4); k++) if (c.waiting.slice(0, k).every((w) => w.link !== c.waiting[k].link)) opts.push([`go ${k}`, go(k)]);
      if (next && (next === "off" || !specials.has(next))) opts.push(["early", start]);
      if (acts.has("drop")) {
        opts.push(["drop", () => {
          const w = c.waiting[0];
          ctl.step(`the connection of ${w.label} is lost`);
          disturb();
          lost(w.link.conn);
          c.waiting = c.waiting.filter((x) => x.link !== w.link);
          w.link.conn.drop(w.link);
        }]);
        opts.push(["drop after", () => {
          const w = c.waiting[0];
          ctl.step(`${w.label}, and the connection is lost`);
          disturb();
          w.go();
          lost(w.link.conn);
          c.waiting = c.waiting.filter((x) => x.link !== w.link);
          w.link.conn.drop(w.link);
        }]);
      }
      if (acts.has("refuse") && c.waiting[0].request && c.waiting[0].request.q._ === FN) {
        opts.push(["refuse", () => {
          const w = c.waiting[0];
          ctl.step(`${w.label}: refused with FLOOD_WAIT_3`);
          c.done(w);
          c.answer(w.request!, { error: [420, "FLOOD_WAIT_3"] });
        }]);
      }
    }
    const [, act] = opts[ctl.choose(opts.length, opts.map((o) => o[0]).join())];
    await act();
  }
  await pump();
  ok();
  check(!pending().length || !online, () => `call ${pending()[0].n} never ends`, "a call never ends");
  if (!online) {
    check(!c.live.length, "a connection stays open after disconnect");
    await special("on");
  }
  check(!pending().length, () => `call ${pending()[0].n} never ends`, "a call never ends");
  for (let i = 0; i < 5 && broken.has(`${home}false`); i++) {
    await advance(3000);
    await pump();
  }
  // whatever happened, everything works from here on
  for (const what of ["m", "4", "d4", "d", "u"]) {
    const k = calls.length;
    call(what);
    await pump();
    ok();
    check(calls[k].status === "ok", () => `a later call (${what}) ends with ${calls[k].status}: ${calls[k].error}`, "later calls fail");
  }
  // updates sent while the connection was being replaced are asked for
  for (const k of renewed) {
    const later = c.keys.some((o) => o.bound && o.dc === home && !o.media && c.keys.indexOf(o) > c.keys.indexOf(k));
    if (k.dc === home && !k.media && !later) check(c.requests.some((r) => r.key === k && r.q._ === "updates.getDifference"), "updates are not asked for after a temporary key was replaced");
  }
  ctl.outcome(calls.map((k) => k.status + (served.get(k.n)?.length ?? 0)).join() + c.handshakes.join());
  await client.disconnect();
  await settle();
  await advance(10 * 60_000);
  check(!c.live.length && !c.waiting.length, () => `after disconnect there is a connection to ${c.live[0]?.conn.dc}`, "a connection stays open after disconnect");
  ok();
  ctl.state(String(disk.writes));
}

export default {
  id: "N01",
  level: "model_checking",
  rule: "every order in which the data centers act on packets of different connections, every moment a connection is lost or refused, or the application makes its next call or disconnects, within the deviation budget, over listed scripts of calls; non-trivial when the outcomes of the calls and the keys made are new",
  assumptions: ["data centers keep the keys agreed on (they may forget who is signed in with them, and parameters of the client)", "no perfect forward secrecy (R07)", "a crash is covered by N02"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const s = (name: string, script: string, acts: string, budget: number, extra: Partial<Cfg> = {}) => scenario({ name, script: script.split(" "), acts: acts.split(" "), budget: budget + d, ...extra });
    return [
      s("calls to one other data center", "4 4 m 4", "", 3),
      s("calls to one other data center, losses", "4 4 m", "drop", 2),
      s("downloads", "d4 d4 d4 d", "", 2),
      s("downloads, losses", "d4 d4", "drop", 2),
      s("several data centers", "m 4 d4 u d 1", "", 2),
      s("test data centers", "4 d4 u d", "drop", 1, { home: "2-test" }),
      s("idle", "4 d4 idle 4 d4 m idle 4", "drop", 1),
      s("forgotten", "4 d4 forget4 4 d4 4", "drop", 1),
      s("connection not initialized", "4 m d uninit 4 m d", "drop", 1),
      s("openings", "4 d4 m 4", "open", 2),
      s("refusals", "m 4 d4", "refuse", 2),
      s("disconnecting", "4 m off on 4", "", 2),
      s("disconnecting downloads", "d4 d4 u off on d4", "", 2),
      s("calls while disconnected", "4 off 4 m on 4", "", 2),
      s("calls while disconnected 2", "off d4 u 4 m on 4 d4", "", 2),
      s("restart", "4 d4 restart 4 d4 m restart 4", "drop", 1),
    ];
  },
} satisfies CheckDef;
