"use strict";
const memo = (f, key, max = 100000) => {
    const m = new Map();
    return (...a) => {
        const k = key(...a);
        if (k === null) return f(...a);
        if (m.has(k)) return m.get(k);
        const v = f(...a);
        if (m.size > max) m.clear();
        m.set(k, v);
        return v;
    };
};
/** key of a value to encode, null if it holds anything but plain data */
function valueKey(v) {
    switch (typeof v) {
        case "string": return "s" + v.length + ":" + v;
        case "number": return "n" + v + ";";
        case "bigint": return "b" + v + ";";
        case "boolean": return v ? "T" : "F";
        case "object": {
            if (v === null) return null;
            const proto = Object.getPrototypeOf(v);
            let r;
            if (Array.isArray(v)) {
                if (proto !== Array.prototype) return null;
                r = "[";
                for (const x of v) {
                    const k = valueKey(x);
                    if (k === null) return null;
                    r += k;
                }
                return r + "]";
            }
            if (proto !== Object.prototype) return null;
            r = "{";
            for (const f in v) {
                const k = valueKey(v[f]);
                if (k === null) return null;
                r += f + "=" + k;
            }
            return r + "}";
        }
    }
    return null;
}
module.exports = { memo, valueKey };
