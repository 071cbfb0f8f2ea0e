// All failures of a check's scenarios, not only the first: `run.sh tools/triage.ts ID K [name] [limit]`, for checks of calls
// deno-lint-ignore-file no-explicit-any
import { explore, newStats } from "../lib/explore.ts";
import { scenario } from "../lib/calls.ts";
const [id, k, only, limit] = Deno.args;
const { specs } = await import(`../checks/${id}.ts`);
for (const spec of [...specs(false), ...specs(true)]) {
  const s = scenario(spec, Number(k));
  if (only && !s.name.includes(only)) continue;
  const found = await explore({ ...s, prefix: undefined }, newStats(), { isKnown: () => true });
  const seen = new Set<string>();
  for (const f of found) {
    const k = f.message.replace(/\d+/g, "0");
    if (seen.has(k) || seen.size >= Number(limit ?? 5)) continue;
    seen.add(k);
    console.log(`---- ${s.name} ${JSON.stringify(f.picks)} ${f.log.find((l) => l.includes("(")) ?? ""}\n${f.message}`);
  }
  console.log(`==== ${s.name}: ${found.length}`);
}
Deno.exit(0);
