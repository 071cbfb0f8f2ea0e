// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import type { Kind } from "../lib/account.ts";
import { S, type UpdateCfg, updates } from "./U01.ts";

export default {
  id: "U03",
  level: "model_checking",
  rule: "every history of updates in the secondary box, outside the boxes and mixed with the common box, and every order, loss, duplication and delay of what the server sends within the deviation budget; an execution is non-trivial when its sequence of delivered updates is new",
  assumptions: ["the server numbers updates and computes differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: (Kind | Kind[])[], acts: string[], budget: number, extra: Partial<UpdateCfg> = {}) => updates(name, { script, acts: S(...acts), budget: budget + d, last: ["qbot", "msg"], isBot: true, params: { dropPendingUpdates: false }, ...extra });
    return [
      c("orders", ["qbot", "qbot", "qbot"], ["slice"], 4),
      c("losses", ["qbot", "qbot", "qbot"], ["lose", "dup", "slice"], 3),
      c("mixed", ["qbot", "msg", "qbot", "del"], ["lose", "slice"], 3),
      c("several in one", [["qbot", "msg"], ["del", "qbot", "plain"]], ["lose", "dup", "slice"], 3),
      c("outside the boxes", ["plain", "msg", "plain"], ["dup"], 4),
      c("reconnections", ["qbot", "msg", "qbot"], ["drop", "lose"], 3),
      c("errors", ["qbot", "msg", "qbot"], ["error", "lose"], 3),
      c("pts changed", ["msg", "qbot", "msg"], ["ptsChanged", "lose"], 3),
      c("pts changed while busy", ["msg", "del", "qbot"], ["ptsChanged", "updatesTooLong", "dup"], 3),
    ];
  },
} satisfies CheckDef;
