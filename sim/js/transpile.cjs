// the bindings' TypeScript as JavaScript (types removed, nothing checked)
const fs = require('fs')
let ts = null
for(const p of ['/opt/veriftools/node/node_modules/typescript', 'typescript']) { try { ts = require(p); break } catch(e) {} }
const [src, out] = process.argv.slice(2)
const text = fs.readFileSync(src, 'utf8')
if(ts) {
	const r = ts.transpileModule(text, { compilerOptions: { module: ts.ModuleKind.ES2022, target: ts.ScriptTarget.ES2022 }, fileName: 'resdet.mts', reportDiagnostics: true })
	if(r.diagnostics?.length) { console.error(r.diagnostics.map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')).join('\n')); process.exit(1) }
	fs.writeFileSync(out, r.outputText)
} else fs.writeFileSync(out, require('module').stripTypeScriptTypes(text, { mode: 'transform' }))
