import type { Scenario } from "./explore.ts";
export type Tier = "quick" | "thorough";
export interface CheckDef {
  id: string;
  level: "model_checking" | "exploration" | "fault_enumeration";
  /** How cases are made and what makes one non-trivial. */
  rule: string;
  assumptions: string[];
  /** Whether the stated space is enumerated completely when no scenario is cut short. */
  exhaustive: boolean;
  scenarios(tier: Tier): Scenario[] | Promise<Scenario[]>;
  /** Seconds after which a single execution counts as not terminating. */
  hangSeconds?: number;
}
