// mutants.cjs FILE: prints small changes of a source file as JSON lines {line, start, end, text, what}; used to look for blind spots of the checks.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const file = process.argv[2];
const src = fs.readFileSync(file, "utf8");
const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true);
const out = (node, start, end, text, what) => console.log(JSON.stringify({ line: sf.getLineAndCharacterOfPosition(node.getStart()).line + 1, start, end, text, what }));
const rep = (node, text, what) => out(node, node.getStart(), node.getEnd(), text, what);
const swap = { "<": "<=", "<=": "<", ">": ">=", ">=": ">", "===": "!==", "!==": "===", "&&": "||", "||": "&&", "+": "-", "-": "+", "+=": "-=", "-=": "+=", "*": "+", "??": "&&" };
const isLog = (n) => /^(this\.)?#?L\w*\.|\.(debug|trace|warning|error)\(|^drop\(this\.#L|console\./.test(n.getText());
function visit(n, inThrow) {
  if (ts.isImportDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isTypeNode(n)) return;
  if (ts.isThrowStatement(n) ) inThrow = true;
  if (ts.isExpressionStatement(n)) {
    if (isLog(n)) return;
    if (!n.getText().startsWith("super(")) rep(n, "void 0;", "delete " + n.getText().slice(0, 60).replace(/\n/g, " "));
  }
  if (!inThrow && ts.isBinaryExpression(n)) {
    const op = n.operatorToken.getText();
    if (swap[op] && !(op === "+" && /["'`]/.test(n.getText()))) out(n, n.operatorToken.getStart(), n.operatorToken.getEnd(), swap[op], `${op} -> ${swap[op]} in ${n.getText().slice(0, 60).replace(/\n/g, " ")}`);
  }
  if (!inThrow && ts.isNumericLiteral(n)) rep(n, `(${n.getText()} + 1)`, `${n.getText()} + 1`);
  if (!inThrow && ts.isBigIntLiteral(n)) rep(n, `(${n.getText()} + 1n)`, `${n.getText()} + 1n`);
  if (!inThrow && (n.kind === ts.SyntaxKind.TrueKeyword || n.kind === ts.SyntaxKind.FalseKeyword)) rep(n, n.getText() === "true" ? "false" : "true", "flip " + n.getText() + " in " + n.parent.getText().slice(0, 50).replace(/\n/g, " "));
  if (ts.isIfStatement(n)) {
    const c = n.expression.getText().slice(0, 60).replace(/\n/g, " ");
    rep(n.expression, "(true as boolean)", `if (true) instead of ${c}`);
    rep(n.expression, "(false as boolean)", `if (false) instead of ${c}`);
  }
  if (ts.isAwaitExpression(n)) { out(n, n.getStart(), n.expression.getStart(), "", "no await in " + n.getText().slice(0, 60).replace(/\n/g, " ")); }
  if ((ts.isContinueStatement(n) || ts.isBreakStatement(n))) rep(n, ";", "no " + n.getText());
  if (ts.isReturnStatement(n) && !n.expression) rep(n, ";", "no return");
  if (ts.isThrowStatement(n)) rep(n, ";", "no throw " + n.getText().slice(0, 50).replace(/\n/g, " "));
  ts.forEachChild(n, (c) => visit(c, inThrow));
}
visit(sf, false);
