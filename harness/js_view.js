// What a script sees of the objects it is given, written down as trace events.
var BUDGET = { throws: {}, gc: 0, print: 0, n: 0, csv: null, shp: null };
function pct(x) {
    var s = unescape(encodeURIComponent(String(x))), r = '';
    for (var i = 0; i < s.length; i++) {
        var c = s.charCodeAt(i);
        r += c >= 0x21 && c < 0x7f && c != 0x25 ? s.charAt(i) : '%' + (c < 16 ? '0' : '') + c.toString(16).toUpperCase();
    }
    return r;
}
function bytes(s) {                        // one character per byte
    var r = '';
    for (var i = 0; i < s.length; i++) {
        var c = s.charCodeAt(i);
        r += c >= 0x21 && c < 0x7f && c != 0x25 ? s.charAt(i) : '%' + (c < 16 ? '0' : '') + c.toString(16).toUpperCase();
    }
    return r;
}
function out(e) {
    BUDGET.n++;
    if (BUDGET.print && BUDGET.n % BUDGET.print == 0) {
        if (e.e == 'js') e.left = BUDGET.n % 4;
        var a = [JSON.stringify(e)];
        for (var i = e.left; i > 0; i--) a.push(JSON.stringify({ e: 'more', left: i - 1 }));
        print.apply(null, a);
    } else {
        if (e.e == 'js') e.left = 0;
        trace(JSON.stringify(e));
    }
}
function opt(x) { return x === undefined ? [] : [pct(x)]; }
function units(v) { return typeof v == 'number' ? Math.round(v * 1e7) : v.map(units); }
function forms(g) {
    if (BUDGET.gc && BUDGET.n % BUDGET.gc == 0) gc();
    if (g.toWKT() === undefined && g.toWKB() === undefined && g.toHexWKB() === undefined && g.toArray() === undefined) return [];
    var arr = units(g.toArray());
    if (g.lon !== undefined && (units(g.lon) != arr[0] || units(g.lat) != arr[1])) arr = 'lon/lat';
    return [[pct(g.toWKT()), pct(g.toWKT(true)), g.toHexWKB(), g.toHexWKB(1), bytes(g.toWKB(false)), bytes(g.toWKB(true))], arr];
}
function indices(list) { var r = []; for (var i in list) if (i != 'length') r.push(Number(i)); return r; }
function view(o, cb) {
    var keys = [], vals = [], k;
    var types = [typeof o.id, typeof o.version, typeof o.timestamp, typeof o.uid, typeof o.user, typeof o.changeset, typeof o.visible].join(',');
    for (k in o.tags) { keys.push(pct(k)); vals.push(opt(o.tags[k])); }
    var v = { id: String(o.id), v: String(o.version), iso: pct(o.timestamp), uid: o.uid, user: pct(o.user), cs: String(o.changeset), vis: o.visible,
              types: types, keys: keys, vals: vals, look: LOOK.map(function(x) { return opt(o.tags[x]); }), nodes: [], mem: [], idx: [], n: 0, beyond: [], geom: [], from: '' };
    var i, l;
    if (cb == 'way') {
        l = o.nodes;
        for (i = 0; i < l.length; i++) v.nodes.push(String(l[i]));
        v.idx = indices(l); v.n = l.length;
        v.beyond = [opt(l[l.length]), opt(l[l.length + 1]), opt(l[4294967294])];
        v.geom = [forms(o.geom), forms(o.reverse_geom), forms(o.polygon_geom)];
    } else if (cb == 'relation') {
        l = o.members;
        for (i = 0; i < l.length; i++) { var m = l[i]; v.mem.push([pct(m.type), String(m.ref), pct(m.role)]); }
        v.idx = indices(l); v.n = l.length;
        v.beyond = [opt(l[l.length]), opt(l[l.length + 1]), opt(l[4294967294])];
    } else if (cb == 'node') {
        v.geom = [forms(o.geom)];
        if (units([o.lon, o.lat]).join() != v.geom[0][1].join()) v.geom = 'lon/lat';
    } else if (cb == 'area') {
        v.from = o.from;
        v.geom = [forms(o.geom)];
    }
    return v;
}
function mk(cb, fn) {
    var objs = cb == 'node' || cb == 'way' || cb == 'relation' || cb == 'area', calls = 0;
    return function() {
        out({ e: 'js', cb: cb, fn: fn, v: objs ? [view(this, cb)] : [] });
        calls++;
        if (objs && BUDGET.csv) {
            var cells = CELLS[calls % CELLS.length].concat([this.id]);
            out({ e: 'csv', cells: cells.map(pct) });
            BUDGET.csv.print.apply(BUDGET.csv, cells);
        }
        if (BUDGET.shp && BUDGET.shp.cb == cb) {
            var a = BUDGET.shp.rows[(BUDGET.shp.n++) % BUDGET.shp.rows.length];
            BUDGET.shp.file.add(cb == 'way' && BUDGET.shp.kind == 'polygon' ? this.polygon_geom : this.geom, a);
        }
        if (cb == 'end') {
            if (BUDGET.csv) BUDGET.csv.close();
            if (BUDGET.shp) BUDGET.shp.file.close();
        }
        if (BUDGET.throws[fn]) throw new Error('thrown by ' + fn);
    };
}
