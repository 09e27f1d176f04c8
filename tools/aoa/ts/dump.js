// prints the syntax trees of TypeScript files as JSON: node dump.js FILE...
const ts = require('/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const skip = new Set(['parent', 'pos', 'end', 'flags', 'modifierFlagsCache', 'transformFlags', 'id', 'symbol', 'locals', 'nextContainer',
  'flowNode', 'endFlowNode', 'returnFlowNode', 'emitNode', 'jsDoc', 'jsDocCache', 'localSymbol', 'kind', 'hasTrailingComma', 'original', 'multiLine',
  'typeParameters', 'singleQuote', 'hasExtendedUnicodeEscape', 'escapedText', 'numericLiteralFlags', 'rawText', 'facadeSymbol', 'resolvedSymbol']);
function conv(n, sf) {
  if (Array.isArray(n)) return n.map((x) => conv(x, sf));
  if (n === null || typeof n !== 'object') return n;
  if (n.kind === undefined) return undefined;
  const o = { k: ts.SyntaxKind[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1 };
  if (o.k === 'FirstLiteralToken') o.k = 'NumericLiteral';
  for (const key of Object.keys(n)) {
    if (skip.has(key)) continue;
    const v = n[key];
    if (key === 'operator' && typeof v === 'number') { o.operator = ts.tokenToString(v); continue; }
    if (typeof v === 'function') continue;
    const c = conv(v, sf);
    if (c !== undefined) o[key] = c;
  }
  if (n.operatorToken) o.op = ts.tokenToString(n.operatorToken.kind);
  if (n.escapedText !== undefined) o.text = ts.idText(n);
  if (ts.isVariableDeclarationList(n)) o.const = !!(n.flags & ts.NodeFlags.Const);
  return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
  const text = fs.readFileSync(f, 'utf8');
  const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2020, false);
  out[f] = { statements: conv(sf.statements, sf), errors: (sf.parseDiagnostics || []).length };
}
process.stdout.write(JSON.stringify(out));
