// Nothing to build: checks that the tools the analyser needs are present.
import { createRequire } from 'node:module';
const ts = createRequire('/opt/veriftools/node/node_modules/x.js')('typescript');
console.log('typescript ' + ts.version);
