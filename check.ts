// check.ts ID [--thorough] [--replay FILE] [--jobs N]: runs the check of one property.
import { loadKnown } from "./lib/known.ts";
import type { CheckDef } from "./lib/api.ts";

const args = [...Deno.args];
const id = args.shift()!;
const flag = (name: string) => {
  const i = args.indexOf(name);
  if (i < 0) return undefined;
  return args.splice(i, 2)[1];
};
const jobs = Number(flag("--jobs") ?? 8);
const replay = flag("--replay");
const tier = args.includes("--thorough") || Deno.env.get("VERIF_TIER") === "thorough" ? "thorough" : "quick";
const seed = Number(Deno.env.get("VERIF_SEED") ?? "1") || 1;
const root = new URL(".", import.meta.url).pathname;
const dir = Deno.makeTempDirSync({ prefix: `verif-${id}-` });
const t0 = Date.now();
const overall = tier === "quick" ? 600 : 1500; // wall-clock safety net; bounds, not time, end a run
const hang = 60;

// deno-lint-ignore no-explicit-any
type Line = any;
const offsets = new Map<number, number>();
function drain(i: number): Line[] {
  let text: string;
  try {
    text = Deno.readTextFileSync(`${dir}/out.${i}`);
  } catch {
    return [];
  }
  const from = offsets.get(i) ?? 0;
  const fresh = text.slice(from);
  const end = fresh.lastIndexOf("\n");
  if (end < 0) return [];
  offsets.set(i, from + end + 1);
  return fresh.slice(0, end).split("\n").filter(Boolean).map((l) => JSON.parse(l));
}

function readBeat(i: number) {
  return Deno.readTextFileSync(`${dir}/beat.${i}`).split("\n")[0];
}

function spawn(i: number) {
  return new Deno.Command(`${root}run.sh`, {
    args: [`${root}worker.ts`, id, tier, dir, String(i), String(overall), ...(replay ? [replay] : [])],
    stdin: "null",
    stdout: "piped",
    stderr: "piped",
    env: { VERIF_SEED: String(seed) },
  }).spawn();
}

const cleanup = () => {
  try {
    Deno.removeSync(dir, { recursive: true });
  } catch {
    //
  }
};

if (replay) {
  const child = spawn(0);
  const o = await child.output();
  const lines = drain(0);
  const err = lines.find((l) => l.t === "error");
  const r = lines.find((l) => l.t === "replayed");
  cleanup();
  if (Deno.env.get("VERIF_LOG")) console.log(new TextDecoder().decode(o.stdout), new TextDecoder().decode(o.stderr));
  if (err || !r) {
    console.log(err?.message ?? new TextDecoder().decode(o.stderr));
    Deno.exit(2);
  }
  for (const l of r.log) console.log(l);
  if (r.found) {
    console.log(`\n${r.found.message}`);
    console.log(`VIOLATION property=${id} replay=${replay}`);
    Deno.exit(1);
  }
  console.log("the recorded execution does not violate the property on this tree");
  Deno.exit(0);
}

interface W {
  child: Deno.ChildProcess;
  done: boolean;
  last: number;
  beat: string;
  scenario: string;
  ended: boolean;
  stderr: string;
  status?: Deno.CommandStatus;
}
const workers: W[] = [];
let total = -1;
let def: CheckDef | undefined;
const results: Line[] = [];
const violations: Line[] = [];
const knownHits = new Map<string, Line>();
const errors: string[] = [];
const known = loadKnown(id);

for (let i = 0; i < jobs; i++) {
  const child = spawn(i);
  const w: W = { child, done: false, last: Date.now(), beat: "", scenario: "", ended: false, stderr: "" };
  workers.push(w);
  (async () => {
    const dec = new TextDecoder();
    for await (const c of child.stderr) if (w.stderr.length < 8000) w.stderr += dec.decode(c);
  })();
  (async () => {
    for await (const _ of child.stdout);
  })();
  child.status.then((s) => {
    w.status = s;
    w.done = true;
  });
}

const kill = (w: W) => {
  if (!w.done) {
    try {
      w.child.kill("SIGKILL");
    } catch {
      //
    }
  }
};

function take(i: number) {
  const w = workers[i];
  for (const l of drain(i)) {
    w.last = Date.now();
    if (l.t === "total") total = l.n, def = l;
    else if (l.t === "start") w.scenario = l.scenario;
    else if (l.t === "error") errors.push(l.message), w.ended = true;
    else if (l.t === "end") w.ended = true;
    else if (l.t === "done") {
      w.scenario = "";
      results.push(l);
      for (const f of l.found) {
        if (known.some((k) => k.key === f.key)) knownHits.set(f.key, f);
        else violations.push(f);
      }
    }
  }
}

let lastScan = 0;
while (workers.some((w) => !w.done)) {
  await new Promise((r) => setTimeout(r, 25));
  const now = Date.now();
  if (now - lastScan < 100) continue;
  lastScan = now;
  for (let i = 0; i < jobs; i++) {
    take(i);
    const w = workers[i];
    if (w.done) continue;
    let b = "";
    try {
      b = readBeat(i);
    } catch {
      //
    }
    if (b !== w.beat) w.beat = b, w.last = now;
    if (w.scenario && now - w.last > hang * 1000) {
      let picks: number[] = [];
      try {
        picks = JSON.parse(readBeat(i)).picks;
      } catch {
        //
      }
      violations.push({ scenario: w.scenario, message: `an execution does not terminate (no progress for ${hang} s)`, key: "hang", picks, log: [] });
      kill(w);
    }
  }
  if (violations.length || errors.length) {
    Deno.writeTextFileSync(`${dir}/stop`, "");
    for (const w of workers) kill(w);
    break;
  }
  if (now - t0 > (overall + hang + 60) * 1000) {
    errors.push("out of time");
    for (const w of workers) kill(w);
    break;
  }
}
await Promise.all(workers.map((w) => w.child.status));
for (let i = 0; i < jobs; i++) take(i);
for (const [i, w] of workers.entries()) {
  if (!w.ended && !violations.length && !errors.length) {
    if (w.scenario) {
      let picks: number[] = [];
      try {
        picks = JSON.parse(readBeat(i)).picks;
      } catch {
        //
      }
      violations.push({ scenario: w.scenario, message: `an execution ended its process (code ${w.status?.code}, signal ${w.status?.signal}): ${w.stderr.slice(0, 1500)}`, key: "died", picks, log: [] });
    } else errors.push(`worker ${i} ended early: ${w.stderr}`);
  }
}
cleanup();

if (errors.length && !violations.length) {
  console.log(`ERROR of the check ${id}: ${errors[0]}`);
  Deno.exit(2);
}
if (!violations.length && results.length !== total) {
  console.log(`ERROR of the check ${id}: explored ${results.length} of ${total} scenarios`);
  Deno.exit(2);
}
const sum = (k: string) => results.reduce((a, r) => a + r[k], 0);
const outcomes = new Set<string>(), states = new Set<string>();
for (const r of results) {
  for (const o of r.outcomes) outcomes.add(r.base + o);
  for (const o of r.states) states.add(r.base + o);
}
const counters: Record<string, number> = {};
for (const r of results) for (const [k, v] of Object.entries(r.counters)) counters[k] = (counters[k] ?? 0) + (v as number);
const samples = results.filter((r) => r.sample.length > 1).sort((a, b) => a.scenario < b.scenario ? -1 : 1).slice(0, 3).map((r) => r.sample);
const truncated = results.filter((r) => r.truncated).map((r) => r.scenario);
const level = def?.level ?? "exploration";
const coverage: Record<string, unknown> = {
  rule: def?.rule ?? "",
  scenarios: new Set(results.map((r) => r.base)).size,
  executions: sum("executions"),
  pruned_executions: sum("pruned"),
  choice_points: sum("choicePoints"),
  distinct_outcomes: outcomes.size,
  counters,
  truncated_scenarios: truncated,
  exhaustive: (def?.exhaustive ?? false) && truncated.length === 0 && violations.length === 0,
  samples: samples.length ? samples : [["(none)"]],
};
if (level === "model_checking") {
  coverage.states = states.size;
  coverage.transitions = sum("transitions");
  coverage.traces_validated_against_impl = sum("executions") - sum("pruned");
} else {
  coverage.evaluations = counters.cases ?? sum("executions");
  coverage.distinct_nontrivial = counters.nontrivial ?? outcomes.size;
  coverage.steps = sum("transitions");
}
const evidence = {
  property: id,
  tier,
  seed,
  level,
  coverage,
  assumptions: def?.assumptions ?? [],
  wall_s: Math.round((Date.now() - t0) / 10) / 100,
  violations: violations.length,
};
Deno.mkdirSync(`${root}evidence`, { recursive: true });
Deno.writeTextFileSync(`${root}evidence/${id}.json`, JSON.stringify(evidence, null, 1) + "\n");
for (const [key] of knownHits) {
  const k = known.find((k) => k.key === key)!;
  console.log(`KNOWN-FINDING: property=${id} ${k.text}`);
}
console.log(`${id} ${tier}: ${coverage.scenarios} scenarios, ${sum("executions")} executions, ${sum("transitions")} steps, ${states.size} states, ${outcomes.size} distinct outcomes, ${evidence.wall_s} s${truncated.length ? `, cut short: ${truncated.join(", ")}` : ""}`);
if (violations.length) {
  const v = violations[0];
  Deno.mkdirSync(`${root}replays`, { recursive: true });
  const path = `${root}replays/${id}.json`;
  Deno.writeTextFileSync(path, JSON.stringify(v, null, 1) + "\n");
  console.log(`scenario: ${v.scenario}\nchoices: ${JSON.stringify(v.picks)}`);
  for (const l of v.log.slice(-60)) console.log(`  ${l}`);
  console.log(v.message);
  console.log(`VIOLATION property=${id} replay=${path}`);
  Deno.exit(1);
}
Deno.exit(0);
