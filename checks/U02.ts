// deno-lint-ignore-file no-explicit-any
import type { CheckDef } from "../lib/api.ts";
import type { Account, Kind } from "../lib/account.ts";
import { settle } from "../lib/world.ts";
import { S, type UpdateCfg, updates } from "./U01.ts";

/** The client already knows the channel. */
const known = async (a: Account, kind: Kind = "chmsg") => {
  a.announce(kind, [a.event(kind)]);
  while (a.queue.length) a.deliver(0), await settle();
};

export default {
  id: "U02",
  level: "model_checking",
  rule: "every history of updates of channels and every order, loss, duplication and delay of what the server sends within the deviation budget; an execution is non-trivial when its sequence of delivered updates is new",
  assumptions: ["the server numbers updates and computes channel differences as https://core.telegram.org/api/updates describes"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: (Kind | Kind[])[], acts: string[], budget: number, extra: Partial<UpdateCfg> = {}) => updates(name, { script, acts: S(...acts), budget: budget + 1 + d, last: ["msg", "chmsg"], setup: (a: Account) => known(a), ...extra });
    return [
      c("orders", ["chmsg", "chdel", "chmsg"], ["slice"], 3),
      c("losses", ["chmsg", "chdel", "chmsg"], ["lose", "dup", "slice"], 3),
      c("mixed", ["chmsg", "msg", "chmsg", "del"], ["lose", "slice"], 2),
      c("several in one", [["chmsg", "msg"], ["chdel", "chmsg"]], ["lose", "dup", "slice"], 3),
      c("two channels", ["chmsg", "chmsg2", "chdel2", "chmsg"], ["lose", "slice"], 2, { setup: async (a) => (await known(a), await known(a, "chmsg2")), last: ["chmsg", "chmsg2"] }),
      c("announced", ["chmsg", "chdel"], ["chtoolong", "lose"], 3),
      c("reconnections", ["chmsg", "chdel", "chmsg"], ["drop", "channels", "lose"], 3),
      c("too long", ["chmsg", "chdel", "chmsg"], ["toolong", "lose"], 3),
      c("errors", ["chmsg", "chdel", "chmsg"], ["error", "lose"], 3),
    ];
  },
} satisfies CheckDef;
