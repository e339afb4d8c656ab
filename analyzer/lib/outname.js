"use strict";
// How ExifTool (-W, -o) turns the name of an output file into the file it writes:
// first the codes of FilenameSPrintf, then the copy numbers of NextUnusedFilename.
// Codes of width zero expand to nothing; for any other code the file depends on
// the source, so there is no answer (null).
const CODE = /%([-+]?)(\d*)([.:]?)(\d*)([lu]?)([dDfFeEtgso])/g;
const COPY = /%[-+]?\d*[.:]?\d*[lun]?[cC]/;
function expand(fmt) {
  let other = false;
  const s = fmt.replace(CODE, (m, sign, wid, dot, skip, mod) => { if (/^0+$/.test(wid) && !sign && !dot && !mod) return ""; other = true; return ""; });
  return other || COPY.test(s) ? null : s;
}
// a name no argument expands to
const impossible = (path) => COPY.test(path);
module.exports = { expand, impossible };
