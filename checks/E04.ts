import type { CheckDef } from "../lib/api.ts";
import type { Scenario } from "../lib/explore.ts";
import { type Cfg, secretChat } from "../lib/secret_explore.ts";

export default {
  id: "E04",
  level: "fault_enumeration",
  rule: "every crash before any write of either side to its storage, at any request and together with losses and delays within the deviation budget; non-trivial when the messages received and packets sent are new",
  assumptions: ["single writes to the storage are atomic", "the update being handled at a crash is delivered again or not; requests to resend are delivered again", "a text may be received twice if its handling was interrupted by a crash"],
  exhaustive: true,
  scenarios(tier) {
    const d = tier === "thorough" ? 1 : 0;
    const c = (name: string, script: string, acts: string, budget: number, extra: Partial<Cfg> = {}): Scenario => secretChat({ name, script, acts: acts.split(" "), budget: budget + d, ...extra });
    const list: Scenario[] = [];
    for (const creator of [0, 1] as const) {
      const by = creator ? "B's chat: " : "";
      list.push(
        c(by + "crashes", "abab", "crash", 3, { creator }),
        c(by + "crashes and losses", "aabb", "crash lose", 2, { creator }),
        c(by + "crashes and concurrent sends", "aabb", "crash slow", 2, { creator }),
        c(by + "crashes and files", "fabg", "crash", 2, { creator }),
        c(by + "crashes while the key is replaced", "abab", "crash week", 2, { creator, rekey: true }),
      );
    }
    return list;
  },
} satisfies CheckDef;
