import type { CheckDef } from "../lib/api.ts";
import { type RpcCfg, rpcScenario } from "../lib/rpc_explore.ts";
import type { Rpc } from "../lib/rpc.ts";

const end = (r: Rpc) => {
  r.checkCalls();
  r.checkTransmissions();
  r.checkNoUnhandled();
};
const S = (...x: string[]) => new Set(x);

export default {
  id: "R01",
  level: "model_checking",
  rule: "every sequence of server, network and application actions within the deviation budget from the canonical run; an execution is non-trivial when its outcome (how each call settled, how often it was transmitted) differs from the others of its scenario",
  assumptions: [
    "packets of one connection arrive in order; a packet handed to the transport reaches the server even when the connection is lost afterwards",
    "after the explored prefix the environment is fair: connections are accepted and every request is answered",
  ],
  exhaustive: true,
  scenarios(tier) {
    const b = tier === "thorough" ? 1 : 0;
    const groups: Record<string, RpcCfg> = {
      "answers": { calls: 3, acts: S("gzip", "error", "container", "stray", "push"), steps: 10 },
      "refusals": { calls: 2, acts: S("salt", "bad16", "bad17", "bad32", "bad33", "bad48", "newsession"), steps: 12 },
      "losses": { calls: 2, acts: S("drop", "time", "push", "error"), steps: 12 },
      "losses, opens decided": { calls: 2, acts: S("drop", "refuse", "time", "bad32"), steps: 12, manualOpen: true },
      "disconnects": { calls: 2, acts: S("disconnect", "drop", "salt", "time"), steps: 12 },
      "slow sends": { calls: 2, acts: S("salt", "bad16", "push", "container"), steps: 14, hold: true },
      "slow sends, losses": { calls: 2, acts: S("drop", "bad32", "disconnect", "push"), steps: 14, hold: true },
      "slow encryption": { calls: 2, acts: S("drop", "bad32", "disconnect", "salt", "push"), steps: 14, crypto: true },
      "initialisation": { calls: 2, acts: S("noinit", "salt", "error", "drop"), steps: 12 },
      "large": { calls: 2, large: 0, acts: S("salt", "bad32", "drop", "gzip"), steps: 12 },
      "garbage": { calls: 2, acts: S("garbage", "transport404", "salt", "push"), steps: 12 },
    };
    return Object.entries(groups).map(([n, c]) => rpcScenario(n, 3 + b, c, end));
  },
} satisfies CheckDef;
