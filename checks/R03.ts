import type { CheckDef } from "../lib/api.ts";
import { type RpcCfg, rpcScenario } from "../lib/rpc_explore.ts";
import type { Rpc } from "../lib/rpc.ts";

const end = (r: Rpc) => {
  r.net.checkViolation();
  r.checkAcks();
};
const S = (...x: string[]) => new Set(x);

export default {
  id: "R03",
  level: "model_checking",
  rule: "every sequence of server messages, refusals and losses within the deviation budget, then one last call; acknowledgements are compared with what was delivered; an execution is non-trivial when its outcome is new for its scenario",
  assumptions: ["messages delivered before a lost connection or an invalidated session need not be acknowledged any more"],
  exhaustive: true,
  scenarios(tier) {
    const b = tier === "thorough" ? 4 : 3;
    const groups: Record<string, RpcCfg> = {
      "answers": { calls: 2, acts: S("gzip", "error", "container", "stray", "push"), steps: 8, last: true },
      "refusals": { calls: 2, acts: S("salt", "bad16", "push", "newsession"), steps: 9, last: true },
      "announcements": { calls: 2, acts: S("detailed", "push", "salt"), steps: 9, last: true },
      "losses": { calls: 2, acts: S("drop", "push", "bad32", "salt"), steps: 9, last: true },
      "slow sends": { calls: 2, acts: S("salt", "push", "container"), steps: 10, hold: true, last: true },
      "pings": { calls: 1, acts: S("time", "salt", "push"), steps: 9, last: true },
    };
    return Object.entries(groups).map(([n, c]) => rpcScenario(n, b, c, end));
  },
} satisfies CheckDef;
