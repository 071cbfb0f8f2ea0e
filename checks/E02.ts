import type { CheckDef } from "../lib/api.ts";
import type { Scenario } from "../lib/explore.ts";
import { type Cfg, secretChat } from "../lib/secret_explore.ts";

export default {
  id: "E02",
  level: "model_checking",
  rule: "every order, loss, delay and failure of the messages of a key exchange within the deviation budget, up to two weeks passing or 101 messages before; non-trivial when the messages received and packets sent are new",
  assumptions: ["requests to resend and their answers are not lost", "secret exponents are drawn from a pool; modular powers are memoized"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: string, acts: string, budget: number, extra: Partial<Cfg> = {}): Scenario => secretChat({ name, script, acts: acts.split(" "), budget: budget + d, rekey: true, ...extra });
    const list: Scenario[] = [];
    for (const creator of [0, 1] as const) {
      const by = creator ? "B's chat: " : "";
      list.push(
        c(by + "after a week", "abab", "week", 3, { creator }),
        c(by + "after a week, with losses", "abab", "week lose", 3, { creator }),
        c(by + "after a week, slow", "abab", "week slow", creator ? 2 : 3, { creator }),
        c(by + "after a week, failing", "abab", "week fail", creator ? 2 : 3, { creator }),
        c(by + "after 100 messages", "ababa", "lose dup", 3, { creator, prelude: 101 }),
        c(by + "after 100 messages, slow", "ababa", "slow", 3, { creator, prelude: 101 }),
      );
    }
    return list;
  },
} satisfies CheckDef;
