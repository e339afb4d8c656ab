"use strict";
let ts;
try { ts = require("/repo/node_modules/typescript"); if (!ts.createSourceFile) throw 0; } catch { ts = require("/opt/veriftools/node/node_modules/typescript"); }
module.exports = ts;
