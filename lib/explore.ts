// Stateless exhaustive exploration: a scenario is run again and again under a
// controller that decides every choice; depth-first enumeration of the choice tree by
// replaying prefixes, each run from a fresh world, up to stated bounds.
import { activity, realClearTimeout, realSetTimeout, resetWorld, W } from "./world.ts";

export class Violation extends Error {
  key: string;
  constructor(message: string, key?: string) {
    super(message);
    this.key = key ?? message;
  }
}
class Pruned extends Error {}
class Nondeterminism extends Error {}

export function fail(message: string, key?: string): never {
  throw new Violation(message, key);
}
export function check(condition: unknown, message: string | (() => string), key?: string): asserts condition {
  if (!condition) fail(typeof message === "string" ? message : message(), key);
}

export interface Choice {
  n: number;
  pick: number;
  cost: number;
  label: string;
}

export class Ctl {
  trace: Choice[] = [];
  log: string[] = [];
  spent = 0;
  #prefix: number[];
  #labels: string[] | null;
  #stats: Stats;
  #budget: number;
  #seen: Map<string, number> | null;
  constructor(prefix: number[], labels: string[] | null, stats: Stats, budget: number, seen: Map<string, number> | null) {
    this.#prefix = prefix;
    this.#labels = labels;
    this.#stats = stats;
    this.#budget = budget;
    this.#seen = seen;
  }
  get remaining() {
    return this.#budget - this.spent;
  }
  get replaying() {
    return this.trace.length < this.#prefix.length;
  }
  /** Pick one of n options. Option 0 is the default; the others cost `cost` (default 1) of the deviation budget. */
  choose(n: number, label = "", cost = 1): number {
    if (n <= 0) throw new Error("choose: no option");
    const i = this.trace.length;
    let pick = 0;
    if (i < this.#prefix.length) {
      pick = this.#prefix[i];
      if (pick >= n || (this.#labels && this.#labels[i] !== undefined && this.#labels[i] !== `${n}:${label}`)) {
        throw new Nondeterminism(`choice ${i}: replay offers ${n} options "${label}", recorded ${pick} of "${this.#labels?.[i]}"`);
      }
    }
    const c = pick === 0 ? 0 : cost;
    activity.n++;
    this.spent += c;
    this.trace.push({ n: this.spent - c + cost > this.#budget && pick === 0 ? 1 : n, pick, cost, label: `${n}:${label}` });
    if (n > 1) this.#stats.choicePoints++;
    return pick;
  }
  /** A choice that does not count as a deviation. */
  free(n: number, label = ""): number {
    return this.choose(n, label, 0);
  }
  pick<T>(options: readonly T[], label = "", cost = 0): T {
    return options[this.choose(options.length, label, cost)];
  }
  /** Record one executed step. */
  step(label: string) {
    this.#stats.transitions++;
    this.log.push(label);
    if (this.log.length > 5000) fail("the execution does not terminate (5000 steps)");
  }
  note(label: string) {
    this.log.push("  " + label);
  }
  /** Record the canonical state reached. With `prune`, stop when it was reached before with at least as much budget left. */
  state(key: string, prune = false) {
    const h = hash(key);
    if (this.#stats.states.size < 3_000_000) this.#stats.states.add(h);
    if (prune && this.#seen && !this.replaying) {
      const before = this.#seen.get(key);
      if (before !== undefined && before >= this.remaining) throw new Pruned();
      this.#seen.set(key, this.remaining);
    }
  }
  outcome(key: string) {
    if (this.#stats.outcomes.size < 1_000_000) this.#stats.outcomes.add(hash(key));
  }
  count(name: string, by = 1) {
    this.#stats.counters[name] = (this.#stats.counters[name] ?? 0) + by;
  }
}

export function hash(s: string): string {
  // two 32-bit FNV-style lanes
  let a = 0x811c9dc5, b = 0xcbf29ce4;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    a = Math.imul(a ^ c, 0x01000193);
    b = Math.imul(b ^ c, 0x85ebca6b) ^ (b >>> 13);
  }
  return (a >>> 0).toString(36) + "." + (b >>> 0).toString(36);
}

export interface Stats {
  executions: number;
  pruned: number;
  transitions: number;
  choicePoints: number;
  states: Set<string>;
  outcomes: Set<string>;
  counters: Record<string, number>;
  truncated: boolean;
  sample: string[];
}
export function newStats(): Stats {
  return { executions: 0, pruned: 0, transitions: 0, choicePoints: 0, states: new Set(), outcomes: new Set(), counters: {}, truncated: false, sample: [] };
}

export interface Scenario {
  name: string;
  /** One execution. Must take every decision from ctl, and build everything afresh. */
  run(ctl: Ctl): Promise<void> | void;
  /** How many times a non-default option may be taken on one execution. */
  budget?: number;
  maxExecutions?: number;
  /** Restrict exploration to below this prefix (sharding). */
  prefix?: number[];
  /** Name of the scenario this is a shard of. */
  base?: string;
  /** Let several workers share this scenario. */
  shard?: boolean;
  single?: boolean;
  seed?: number;
}

export interface Found {
  scenario: string;
  message: string;
  key: string;
  picks: number[];
  log: string[];
}

export interface RunOptions {
  onExecution?: (picks: number[]) => void;
  deadline?: number;
  isKnown?: (f: Found) => boolean;
}

/** Also ends when the execution waits for something that never happens. */
function ended(p: Promise<void> | void): Promise<void> | void {
  if (!(p instanceof Promise)) return p;
  return new Promise((resolve, reject) => {
    let last = -1, quiet = 0;
    let timer = 0;
    const look = () => {
      if (activity.n !== last) last = activity.n, quiet = 0;
      else if (++quiet >= 30) return reject(new Violation("something that is waited for never happens", "stall"));
      timer = realSetTimeout(look, 250);
    };
    look();
    p.then(resolve, reject).finally(() => realClearTimeout(timer));
  });
}

export async function runOnce(s: Scenario, picks: number[], labels: string[] | null, stats: Stats, seen: Map<string, number> | null): Promise<{ ctl: Ctl; found: Found | null; pruned: boolean }> {
  resetWorld(s.seed);
  const ctl = new Ctl(picks, labels, stats, s.budget ?? Infinity, seen);
  try {
    await ended(s.run(ctl));
    return { ctl, found: null, pruned: false };
  } catch (err) {
    if (err instanceof Pruned) return { ctl, found: null, pruned: true };
    const message = err instanceof Violation || err instanceof Nondeterminism ? err.message : `unexpected error: ${err instanceof Error ? (err.stack ?? err.message) : String(err)}`;
    const key = err instanceof Violation ? err.key : err instanceof Nondeterminism ? "the same choices give another execution" : `unexpected error: ${err instanceof Error ? err.message : String(err)}`;
    return { ctl, found: { scenario: s.name, message, key, picks: ctl.trace.map((c) => c.pick), log: ctl.log.slice(-400) }, pruned: false };
  }
}

/** Partition a scenario by the first choice that differs from its default execution. */
export async function autoShard(s: Scenario): Promise<Scenario[]> {
  if (!s.shard) return [s];
  const r = await runOnce(s, [], null, newStats(), null);
  if (r.found) return [s];
  const out: Scenario[] = [{ ...s, base: s.name, name: `${s.name} [default]`, maxExecutions: 1, single: true }];
  r.ctl.trace.forEach((c, i) => {
    for (let k = 1; k < c.n; k++) {
      const prefix = r.ctl.trace.slice(0, i).map((x) => x.pick).concat(k);
      out.push({ ...s, base: s.name, name: `${s.name} [${i}:${k}]`, prefix });
    }
  });
  return out;
}

export async function explore(s: Scenario, stats: Stats, opts: RunOptions = {}): Promise<Found[]> {
  const found: Found[] = [];
  const base = s.prefix ?? [];
  let prefix = base.slice();
  let labels: string[] | null = null;
  const seen = new Map<string, number>();
  let first = true;
  let n = 0;
  while (true) {
    opts.onExecution?.(prefix);
    let r = await runOnce(s, prefix, labels, stats, seen);
    n++;
    stats.executions++;
    if (r.pruned) stats.pruned++;
    if (n === 3 || (n === 1 && stats.sample.length === 0)) stats.sample = [`scenario ${s.name}`, ...r.ctl.log.slice(0, 60)];
    if (first && !r.found) {
      // determinism: the very same choices must give the very same run
      first = false;
      const repeat = () => runOnce(s, r.ctl.trace.map((c) => c.pick), r.ctl.trace.map((c) => c.label), newStats(), null);
      let again = await repeat();
      // what is computed once and kept may be missing in the second execution
      if (!again.found && !r.pruned && again.ctl.log.join("\n") !== r.ctl.log.join("\n")) r = again, again = await repeat();
      if (again.found || (!r.pruned && again.ctl.log.join("\n") !== r.ctl.log.join("\n"))) {
        const a = r.ctl.log, b = again.ctl.log;
        let i = 0;
        while (i < a.length && a[i] === b[i]) i++;
        r.found = again.found ?? { scenario: s.name, message: `the same choices give another execution, from line ${i} on: ${a[i]} / ${b[i]}`, key: "the same choices give another execution", picks: r.ctl.trace.map((c) => c.pick), log: b.slice(-400) };
      }
    }
    if (r.found) {
      found.push(r.found);
      if (!opts.isKnown?.(r.found)) return found;
      if (found.length > 500) return found;
    }
    if (s.single) break;
    // next
    const t = r.ctl.trace;
    let i = t.length - 1;
    while (i >= base.length && t[i].pick + 1 >= t[i].n) i--;
    if (i < base.length) break;
    prefix = t.slice(0, i).map((c) => c.pick);
    prefix.push(t[i].pick + 1);
    labels = t.slice(0, i + 1).map((c) => c.label);
    if (s.maxExecutions !== undefined && n >= s.maxExecutions) {
      stats.truncated = true;
      break;
    }
    if (opts.deadline !== undefined && opts.deadline < now()) {
      stats.truncated = true;
      break;
    }
  }
  return found;
}

import { realNow } from "./world.ts";
export function now() {
  return realNow();
}
export { W };
