// One worker of a check: claims scenarios from a shared folder and explores them.
import { realNow } from "./lib/world.ts";
import { autoShard, explore, type Found, newStats, runOnce, type Scenario } from "./lib/explore.ts";
import type { CheckDef, Tier } from "./lib/api.ts";
import { isKnown, loadKnown } from "./lib/known.ts";

const [id, tier, dir, index, deadlineS, replay] = Deno.args;
const out = (o: unknown) => Deno.writeTextFileSync(`${dir}/out.${index}`, JSON.stringify(o) + "\n", { append: true });
// deno-lint-ignore no-explicit-any
const fatal = (err: any) => out({ t: "error", message: err?.stack ?? String(err) });
try {
  const def = (await import(`./checks/${id}.ts`)).default as CheckDef;
  const scenarios: Scenario[] = [];
  for (const s of await def.scenarios(tier as Tier)) {
    if (!replay) out({ t: "start", scenario: s.name });
    scenarios.push(...(replay ? [s] : await autoShard(s)));
  }
  const names = new Set(scenarios.map((s) => s.name));
  if (names.size !== scenarios.length) throw new Error("duplicate scenario names");
  if (replay) {
    const r = JSON.parse(Deno.readTextFileSync(replay)) as Found;
    const s = scenarios.find((s) => s.name === r.scenario || r.scenario.startsWith(s.name + " ["));
    if (!s) throw new Error(`no scenario ${r.scenario}`);
    const { ctl, found } = await runOnce(s, r.picks, null, newStats(), null);
    out({ t: "replayed", found, log: ctl.log });
  } else {
    out({ t: "total", n: scenarios.length, level: def.level, rule: def.rule, assumptions: def.assumptions, exhaustive: def.exhaustive });
    const known = loadKnown(id);
    const beat = Deno.openSync(`${dir}/beat.${index}`, { create: true, write: true });
    const enc = new TextEncoder();
    let n = 0;
    const t0 = realNow();
    for (const [i, s] of scenarios.entries()) {
      try {
        Deno.openSync(`${dir}/claim.${i}`, { createNew: true, write: true }).close();
      } catch {
        continue;
      }
      const stats = newStats();
      out({ t: "start", scenario: s.name });
      const found = await explore(s, stats, {
        deadline: t0 + Number(deadlineS) * 1000,
        isKnown: (f) => isKnown(known, f),
        onExecution: (picks) => {
          beat.seekSync(0, 0);
          beat.writeSync(enc.encode(JSON.stringify({ n: n++, scenario: s.name, picks }) + "\n"));
        },
      });
      out({
        t: "done",
        scenario: s.name,
        executions: stats.executions,
        pruned: stats.pruned,
        transitions: stats.transitions,
        choicePoints: stats.choicePoints,
        base: s.base ?? s.name,
        states: [...stats.states].slice(0, 100_000),
        stateCount: stats.states.size,
        outcomes: [...stats.outcomes].slice(0, 100_000),
        counters: stats.counters,
        truncated: stats.truncated,
        sample: stats.sample,
        found,
        ms: Math.round(realNow() - t0),
      });
      if (found.some((f) => !isKnown(known, f))) break;
      if (existsSync(`${dir}/stop`)) break;
    }
  }
  out({ t: "end" });
} catch (err) {
  fatal(err);
}
function existsSync(p: string) {
  try {
    Deno.statSync(p);
    return true;
  } catch {
    return false;
  }
}
Deno.exit(0);
