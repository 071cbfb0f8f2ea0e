import type { CheckDef } from "../lib/api.ts";
import { type Cfg, scenario } from "./N01.ts";

export default {
  id: "R07",
  level: "model_checking",
  rule: "every order in which the data centers act on packets of different connections, every moment a connection is lost or refused, or the application makes its next call or disconnects, within the deviation budget, over listed scripts of calls, restarts, days passing and servers forgetting keys; non-trivial executions contain at least one deviation",
  assumptions: ["calls pending at, or made soon after, a loss, a forgotten key or the replacement of a key may fail", "data centers keep the permanent keys"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const s = (name: string, script: string, acts: string, budget: number, extra: Partial<Cfg> = {}) => scenario({ name, pfs: true, script: script.split(" "), acts: acts.split(" "), budget: budget + d, ...extra });
    return [
      s("calls", "m 4 d4 m 4 u", "", 2),
      s("losses", "m 4 m d4", "drop", 2),
      s("openings", "m 4 d4", "open", 2),
      s("disconnecting", "4 m off on 4 m", "", 2),
      s("connecting twice", "4 m on on 4 m", "", 2),
      s("restart", "4 d4 restart 4 d4 m restart 4", "", 1),
      s("a day", "m 4 eve m 4 minute m 4 minute m 4", "", 2),
      s("a day, losses", "m eve m minute m minute m", "drop", 2),
      s("a day, openings", "m eve m minute m minute m", "open", 2),
      s("sleep", "m 4 sleep m 4 m 4", "", 2),
      s("forgotten keys", "m 4 forgettemp m 4 m 4", "drop", 2),
    ];
  },
} satisfies CheckDef;
