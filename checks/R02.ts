import type { CheckDef } from "../lib/api.ts";
import { check, type Scenario } from "../lib/explore.ts";
import { type RpcCfg, rpcScenario } from "../lib/rpc_explore.ts";
import { Rpc, settle, W } from "../lib/rpc.ts";

// The model server validates every packet it is handed: envelope, padding, identifiers,
// sequence numbers, containers, salts (see MtServer.receive).
const end = (r: Rpc) => {
  r.net.checkViolation();
  for (const c of r.calls) check(c.status !== "pending", `call ${c.n} never settles`, "a call never settles");
  for (const s of r.server.sessions.values()) {
    const ids = new Set(s.msgs.map((m) => m.msgId));
    check(ids.size === s.msgs.length, "an identifier is used twice in one session");
  }
};
const S = (...x: string[]) => new Set(x);

/** A server whose clock differs: the client must converge on identifiers the server takes. */
function skew(seconds: number): Scenario {
  return {
    name: `server clock ${seconds >= 0 ? "+" : ""}${seconds}s`,
    budget: 2,
    async run(ctl) {
      const r = new Rpc(ctl, { skew: seconds, checkTime: true });
      await r.start();
      for (let i = 0; i < 3; i++) {
        ctl.step("call");
        const c = r.invoke();
        await settle();
        W.now += [0, 20, 1_000, 31_000][ctl.choose(4, "pause")];
        for (let k = 0; c.status === "pending" && k < 20; k++) {
          const m = r.answerable()[0];
          if (!m) break;
          ctl.step("server decides");
          if (!r.serverVerdict(m)) r.answer(m);
          await settle();
        }
        check(c.status === "ok", () => `with the server's clock ${seconds} s apart, call ${i} is not accepted after ${c.sent.length} transmissions`, "clock difference is never corrected");
        check(c.sent.length <= 6, () => `${c.sent.length} transmissions to correct a clock difference`, "clock difference is corrected slowly");
        ctl.state(r.key());
      }
      ctl.outcome(r.calls.map((c) => c.sent.length).join());
      end(r);
    },
  };
}

export default {
  id: "R02",
  level: "model_checking",
  rule: "every sequence of calls, pushes, refusals, clock steps and session changes within the deviation budget; every packet the client produces is validated by the model server; an execution is non-trivial when its outcome (how calls settled and how often they were sent) is new for its scenario",
  assumptions: ["the clock moves in steps of -7 s, +20 ms, +1 s, +31 s", "the server's clock differs by one of the listed amounts"],
  exhaustive: true,
  scenarios(tier) {
    const b = tier === "thorough" ? 4 : 3;
    const groups: Record<string, RpcCfg> = {
      "clock": { calls: 3, acts: S("clock", "push"), steps: 9, salt: true },
      "clock and refusals": { calls: 2, acts: S("clock", "salt", "bad32", "bad16"), steps: 9, salt: true },
      "salts": { calls: 2, acts: S("salt", "newsession", "push", "container"), steps: 9, salt: true },
      "pings": { calls: 2, acts: S("time", "push", "salt"), steps: 9, salt: true },
      "large": { calls: 2, large: 1, acts: S("salt", "push", "gzip"), steps: 9, salt: true },
      "losses": { calls: 2, acts: S("drop", "push", "clock"), steps: 9, salt: true },
    };
    return [
      ...Object.entries(groups).map(([n, c]) => rpcScenario(n, b, c, end)),
      ...[0, 29, 60, 301, 400, 3600, 86_400 * 3, -29, -60, -299, -301, -400, -3600, -86_400 * 3].map(skew),
    ];
  },
} satisfies CheckDef;
