// Nothing to build: loads every module once, so that a broken installation shows here.
import "../lib/world.ts";
import "/repo/mod.ts";
console.log("ready");
Deno.exit(0);
