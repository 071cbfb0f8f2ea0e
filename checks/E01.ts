import type { CheckDef } from "../lib/api.ts";
import type { Scenario } from "../lib/explore.ts";
import { type Cfg, secretChat } from "../lib/secret_explore.ts";

export default {
  id: "E01",
  level: "model_checking",
  rule: "every order, loss, duplication, delay and failure of the listed kinds within the deviation budget, for both sides creating the chat; an execution is non-trivial when the messages received and packets sent are new",
  assumptions: ["the server delivers every packet it confirmed at least once unless the scenario loses it; a request to resend and its answers are not lost", "packets of the peer that stay undelivered at the end are brought by the next two messages in each direction"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: string, acts: string, budget: number, extra: Partial<Cfg> = {}): Scenario => secretChat({ name, script, acts: acts.split(" "), budget: budget + d, ...extra });
    const list: Scenario[] = [];
    for (const creator of [0, 1] as const) {
      const by = creator ? "B's chat: " : "";
      list.push(
        c(by + "losses", "aaba", "lose", 5, { creator }),
        c(by + "losses, duplicates and reordering", "aabb", "lose dup reorder", 4, { creator }),
        c(by + "slow and concurrent sends", "aabAb", "slow", 4, { creator }),
        c(by + "slow sends and losses", "abab", "slow lose", 4, { creator }),
        c(by + "failing sends", "abaf", "fail lose", 3, { creator }),
        c(by + "failing sends and duplicates", "abba", "fail dup", 3, { creator }),
        c(by + "files", "fabg", "lose fail slow", 3, { creator }),
      );
    }
    return list;
  },
} satisfies CheckDef;
