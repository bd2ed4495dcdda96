"""M01: no program makes the interpreter touch memory that is not its own, fail an assertion or die of a signal.
Every builtin function with every tuple of argument values, every option with every value, every operator with every
pair of values, every construct with a callback that changes what the construct is using, and every pair of operations
on one object run in an AddressSanitizer build. The list of functions and options comes from the interpreter itself."""
import itertools, json, os, re, resource, shutil, select, signal, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from mc.core import Ctx, Case, NCPU, NOBODY

V1 = ['undefined','null','true','0','-1','1','3','1.5','NaN','Infinity','-Infinity','1e10','4294967296','-2147483649','""','"a"','"%s*{"','L','"a\\u0000b"','"é日"','[]','[1,"x"]','[,1]','[[1],[2]]','{}','{a:1}','function(){}','function(a,b){return b;}','function(){throw 1;}','/a(b)?/g','I','D','new String("q")','Math.abs','File','N']
V2 = ['undefined','null','true','0','-1','1e10','NaN','""','"ab"','L','[1,"x"]','{a:1}','function(){return 1;}','/a/','I']
V3 = ['null','-1','5','"ab"','[1]','{a:1}','function(){return 1;}']
# class -> receivers; None: a namespace of functions
CL = {'Array':['[3,1,2]','[]','[1,,3]','["b",{a:1},[2]]'],'Boolean':['true','new Boolean(false)'],'Channel':['new Channel("f.txt")','new Channel("g.txt","w")','Channel'],'Function':['function(a,b){return a;}','Math.abs','(()=>1)'],'Interp':['new Interp()','Interp'],'Number':['5','-1.5','NaN','Number'],'Object':['{a:1,b:[2]}','Object','{}'],'RegExp':['/a(b)?/','/./g'],'Sqlite':['new Sqlite()','new Sqlite("f.db")'],'String':['""','"abc,ab"','L','"é日a\\u0000b"','String'],'Socket':['new Socket({server:true,port:0})'],
'Event':None,'File':None,'Info':None,'JSON':None,'Math':None,'Signal':None,'System':None,'Util':None,'Vfs':None,'Zvfs':None,'console':None,'':None}
MUT = ['o.length=0','o.length=100','for (var i=0;i<300;i++) o.push(i)','o.splice(0,2)','o.splice(0,99)','o.splice(1,0,7,8,9)','o.shift()','o.pop()','o.unshift(1,2,3)','delete o[0]','o[0]=o','o[1]=null','o[5000]=1','o.sort()','o.reverse()','o.fill("z")','Object.freeze(o)','o=null','f=null','o=f=null','throw 1','o.map(function(x){return x;})','o.sort(function(a,b){return o.length=0;})','o.concat(o)','o.flat()','o[0]=[o]','o.k=5','o=o.concat([1])','delete o','a=null','o.forEach(function(x,i) { delete o[i]; })','o["a"]={}; delete o["a"]','JSON.stringify(o)','exit(0)','o.push(f)','o.splice(0,1,f,f)']
ARR = ['[3,1,2]','["b","a","c","d"]','[{a:1},{a:2},[5]]','[1,,3]','[[1,2],[3]]']
CB = ['o.map(f)','o.forEach(f)','o.filter(f)','o.some(f)','o.every(f)','o.find(f)','o.findIndex(f)','o.reduce(f)','o.reduce(f,[o])','o.reduceRight(f)','o.sort(f)','o.map(f,o)','o.concat(o.map(f))','o.map(f).concat(o.map(f))','"abc".replace(/./g,f)','o.push(f())','o[f()]=f()','o[0]+f()','o[0]==f()','[o[0],f(),o[1]]','({x:o[0],y:f(),z:o[1]})','o[0].a=f()','for (var x of o) f()','for (var x in o) f()','f(o[0],f(o[1],f()))','o[0]=o[f()]','switch (o[0]) { case f(): case 3: f(); }','with (o) { f(); }','o[0]?f():o[1]','o.length+f()','o.indexOf(f())','o.splice(f(),1)','o[1]=f(f(),o[0])','delete o[f()]','f.call(o,f())','f.apply(o,o)','f.bind(o)()','new f()','new f(o[0],f())','(function() { return f()+arguments[0]; })(o[0])','var t=o[0]; f(); t','try { f(); throw o[0]; } catch(e) { f(); e; }','(x=>f())(o[0])','o.concat([f()],o)','o.fill(f())','o.join(f())','o.includes(f())','o[0]++ + f()','o[0]+=f()','typeof o[f()]','f() in o','o instanceof f','JSON.stringify(o,f())','o.map(x=>f())','setTimeout(f,0); update(1)','File.glob("*",f)','format("%s %s",o[0],f())','Object.keys(o).map(f)','Object.assign(o,{q:f()})','String(o)+f()','[1,2].map(function(x) { return f()+o.length; })','D.eval("create table if not exists t(a,b);insert into t values(1,2),(3,4);");D.query("select * from t",{callback:f})','D.func("ff",f); D.query("select ff(1,2)")','I.alias("al",f,null); I.eval("al()")','matchObj(o,f())','o.flat(f())','assert(true,"x",f())','times(f,3)','I.call("eval",["1"]); f()','eval("f(); o[0]")','var g=o.map; g.call(o,f)','Array.prototype.map.call(o,f)','String.fromCharCode(f())','o.slice(f(),f())','o.reverse(f())','o.unshift(f(),o[0],f())','o.shift()+f()','o.pop()+f()','Function.prototype.call.call(f,o)','function g(x=f()) { return x+o[0]; }; g()','`${o[0]} ${f()}`','o[0],f()','(o=f()),o','o[o.length-1]=f()','var {a,b}=o; f()','var x=o[0],y=f(),z=o[1]; x','return1()','o.x=f; o.x()','this.f','f.o=o; f()','o.f=f; o.f(o.f())','while (o.length) { o.pop(); f(); }','do { f(); } while (o.length<0)','for (var j=0;j<o.length && j<9;j++) f()','for (var j=f(); j<1; j=5) o[0]','o.sort({compare:f})','o.sort({mode:"nocase"}); f()']
SIGS = ['function() { %s; return 1; }','function(a:any) { %s; return a; }','function(x:any=0,i:any=0,z:any=0) { if (typeof n=="undefined" || n++==1) { %s; } return o; }']

# Signal.kill and alarm act on other processes or end the run; input, sleep, update(<1) wait.
SKIP = {'Signal.kill', 'Signal.alarm', 'exit', 'System.exit', 'sleep', 'System.sleep', 'console.input', 'update', 'Event.update', 'System.update'}
SLOW = {'exec', 'System.exec', 'Vfs.exec'}
BIN = ['+', '-', '*', '/', '%', '<<', '>>', '>>>', '&', '|', '^', '&&', '||', '==', '!=', '===', '!==', '<', '>', '<=', '>=', ',', ' in ', ' instanceof ']
ACC = ['a[b]', 'a[b]=c', 'delete a[b]', 'a[b]+=b', 'a[b]++', 'a.length=b', 'a[b](c)', 'new a(b)', 'a(b)', 'a(b,c,a)', 'for (var k in a) b[k]=a', 'for (var k of a) b.push(k)', 'with (a) { b; }', 'switch (a) { case b: c; }', 'a=b=a', 'a+=b', 'a-=b', 'a.prototype=b; new a()', 'a.x=b; a.x.y=c', 'var o={x:a,y:b}; o.x=o; o.y=o',
       'throw a', 'try { throw a; } catch(e) { e=b; e[c]; }', 'typeof a[b]', 'void a(b)', '`${a}${b}`', 'a?b:c', 'String(a)+JSON.stringify(b)', 'Object.keys(a).concat(b)', 'a.call(b,c)', 'a.apply(b,c)', 'a.bind(b,c)()', 'a.__proto__=b; a[c]', 'Object.setPrototypeOf(a,b); a.q; Object.getPrototypeOf(a)', '(x=>a)(b)', '(function(q=1) { return arguments[b]; })(a,b)', 'a[0]=a; a[1]=b; b[0]=a; JSON.stringify(a)', 'Object.freeze(a); a[b]=c', 'Info.named(a); Info.obj(b)', 'puts(a,b)', 'I.eval("var q="+JSON.stringify(a)); I.value("q")', 'D.func("q",a,b); D.eval("select q(1)")']
TYPED = {'string': ['"ab"'], 'number': ['1', '-1'], 'function': ['function(x:any=0,y:any=0,z:any=0,w:any=0) { return x; }'], 'array': ['[1,"x"]'], 'object': ['{a:1}'], 'any': ['o', '[o]'], 'boolean': ['true'], 'null': ['null'], 'regexp': ['/a/'], 'userobj': ['o'], '': ['o', '2']}


def proto(c, exe):
    """The builtin functions of each class, from the interpreter."""
    out = {}
    for cl in CL:
        src = 'var P=%s; Info.cmds(%s).forEach(function(n) { n=n.split(".").pop(); var o=Info.cmds(P+n,{full:true}); if (o) puts(JSON.stringify({n:n,a:o.args,mn:o.minArgs,mx:o.maxArgs,t:o.type,o:(o.options?o.options.map(function(x) { return x.name; }):null)})); });' % (
            json.dumps(cl + '.' if cl else ''), json.dumps(cl + '.*' if cl else '*'))
        r = c.js(src, kind="asan", env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
        text = r[1].decode('utf8', 'replace') if isinstance(r[1], bytes) else r[1]
        out[cl] = [json.loads(l) for l in text.splitlines() if l.startswith('{')]
    return out


def builtin_calls(P, thorough):
    v2 = V2 if thorough else ['undefined', 'null', '-1', '1e10', '""', 'L', '[1,"x"]', '{a:1}', 'function(){return 1;}']
    v3 = V3 if thorough else ['null', '-1', '"ab"', '[1]']
    for cl, rs in CL.items():
        for f in P[cl]:
            n = (cl + '.' if cl else '') + f['n']
            if n in SKIP or (cl == '' and f.get('t') != 'command'): continue
            mx = f.get('mx'); mx = 3 if mx is None or mx < 0 else mx
            mn = f.get('mn') or 0
            if rs is None: calls = [n.replace('%', '%%') + '(%s)']
            else: calls = ['var o=%s; o.%s(%%s)' % (r.replace('%', '%%'), f['n']) for r in rs]
            for ci, cc in enumerate(calls):
                if not mn: yield cc % ''
                if mx >= 1:
                    for v in V1: yield cc % v
                if n in SLOW: continue
                if mx >= 2 and (thorough or ci < 1):
                    for t in itertools.product(v2, repeat=2): yield cc % ','.join(t)
                if mx >= 3 and (thorough or ci < 1):
                    for t in itertools.product(v3, repeat=3): yield cc % ','.join(t)
                if mx >= 4: yield cc % ','.join(['1'] * mx)
            for o in f.get('o') or []:
                for v in V1 if thorough else V2:
                    for base in (('',) if not mn else ()) + (('"a",', '[1],', 'null,', 'function(){return 1;},') if thorough or f['n'] in ('glob', 'query', 'assert') else ('"a",', 'function(){return 1;},')):
                        if n in SLOW and base != '"a",': continue
                        yield calls[0] % ('%s{%s:%s}' % (base, o, v))


def construct_options(P, thorough):
    for f in P['']:
        if f['n'] in ('Interp', 'Socket', 'Sqlite') and f.get('o'):
            args = 'null,' if f['n'] == 'Sqlite' else ''
            for o in f['o']:
                for v in V1 if thorough else V2:
                    if (f['n'], o) in (('Socket', 'port'),): continue
                    use = {'Interp': 'o.eval("1+1"); o.conf(); o.eval("puts(Interp.conf())")', 'Sqlite': 'o.query("select 1 as a"); o.conf()', 'Socket': 'o.conf(); o.names()'}[f['n']]
                    yield 'var o=new %s(%s{%s%s:%s}); %s' % (f['n'], args, 'server:true,port:0,' if f['n'] == 'Socket' and o != 'server' else '', o, v, use)
                    yield 'var o=new %s(%s); o.conf({%s:%s}); %s' % (f['n'], '{server:true,port:0}' if f['n'] == 'Socket' else '', o, v, use)


def operators(thorough):
    V = V1 if thorough else ['undefined', 'null', '0', '-1', '1e10', '""', '"ab"', '[1,"x"]', '{a:1}', 'function(x:any=0){return x;}', '/a/', 'I', 'Math.abs', 'new String("q")']
    for a in V:
        for b in V:
            for o in BIN: yield 'var a=%s,b=%s; a%sb' % (a, b, o)
            for o in ACC:
                if 'length=b' in o and b in ('1e10', '4294967296'): continue
                yield 'var a=%s,b=%s,c="z"; %s' % (a, b, o)


def reentrancy(thorough):
    for x, m in enumerate(MUT):
        for y, cb in enumerate(CB):
            for k, (a, s) in enumerate(itertools.product(ARR, SIGS)):
                if cb.startswith('while') and re.search(r'o\[|push|splice|unshift|100|concat|map', m): continue
                if thorough or k % 5 == (x + y) % 5: yield 'var n=0,a=%s,o=a; var f=%s; %s' % (a, s % m, cb)


def pairs(P, thorough):
    R = {'Array': ['[3,1,2]', '[,"b",[1]]'], 'Object': ['{a:1,b:[2]}'], 'Function': ['function(a:any=0,b:any=0){return a;}'], 'RegExp': ['/a(b)?/g'], 'Channel': ['new Channel("f.txt","r+")'], 'Sqlite': ['new Sqlite("t.db")'], 'Interp': ['new Interp()'], 'Socket': ['new Socket({server:true,port:0})'], 'Zvfs': None, 'Vfs': None, 'Util': None, 'JSON': None, 'Signal': None, 'Event': None}
    for cl, rs in R.items():
        ops = []
        for f in P[cl]:
            n = cl + '.' + f['n']
            if n in SKIP or n in SLOW: continue
            args = []
            for a in (f.get('a') or '').split(','):
                if not a.strip(): continue
                t = a.split('=')[0].split(':')[1].split('|') if ':' in a else ['']
                args.append([v for k in t for v in TYPED.get(k.strip(), ['o'])])
            mn = f.get('mn') or 0
            for k in range(mn, len(args) + 1):
                ops += [('o.%s(%s)' if rs else cl + '.%s(%s)') % (f['n'], ','.join(t)) for t in itertools.islice(itertools.product(*args[:k]), 0, 6 if thorough else 2)]
        if cl == 'Sqlite': ops += ['o.eval("create table if not exists q(x);insert into q values(1)")', 'o.query("select * from q")', 'o.query("select * from q",function(r) { o.eval("insert into q values(2)"); return 1; })', 'o=null', 'o.func("fx",function(x) { return x; })', 'o.onecolumn("select fx(x) from q")']
        if cl == 'Interp': ops += ['o.eval("var z=[1]; z")', 'o.alias("k",function() { return o; },null); o.eval("k()")', 'o.eval("new Interp().eval(\'1\')")', 'o=null']
        for r in rs or ['1']:
            for x, y in itertools.product(ops, repeat=2):
                yield 'var o=%s; try { %s; } catch(e) { } try { %s; } catch(e) { } %s' % (r, x, y, x)


def limit():
    # Files of more than 4 MB fail with EFBIG.
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 20, 4 << 20))


TOK = ['a', '1', '"s"', '(', ')', '{', '}', '[', ']', ';', ',', ':', '.', '=', '+', '++', '!', '?', '=>', 'function', 'return', 'if', 'else', 'for', 'while', 'do', 'switch', 'case', 'default', 'break', 'continue', 'var', 'try', 'catch', 'finally', 'throw', 'new', 'delete', 'in', 'of', 'with', 'typeof', 'this', 'null', '/x/', '`', '"', '/*', '#', '...', '\\', '${']
CTX = ['%s', 'function f() { %s', 'function f(%s) { }', 'for (%s', 'switch (a) { case 1: %s }', 'try { %s', 'x={%s}', '[%s', 'f(%s)', 'var a:%s', '`${%s}`', 'function f(a:number=%s) {}', 'if (1) %s else 2', 'class %s', '(x=>%s)(1)']
# The text of what takes structured text: a template and the alphabet of the text.
TEXT = [('JSON.parse(%s)', list('{}[]",:1-.ente\\u ')), ('new RegExp(%s)', list('a([])*+?{}|^$\\1,-.')), ('"aab".replace(new RegExp(%s,"g"),"[$1$&]")', list('a()*+?|\\1')), ('"aab".replace(/a(b)?/g,%s)', list('$&1029`\\a')), ('format(%s,1,"b",[3])', list('%-+0 #.*159sdfxcqlz')),
        ('strftime(1,{fmt:%s})', list('%YdHSQ ') + ['%f']), ('strptime(%s)', list('0129-: TZ.')), ('strptime("2001-02-03",%s)', list('%YdHSjT') + ['%f']), ('Util.base64(%s,true)', list('aZ9+/= \n')), ('Util.decrypt(%s,"k")', list('aZ9+/')), ('Util.urlDecode(%s)', list('%41gG+ ')), ('Util.verConvert(%s)', list('0123.a ')),
        ('Number(%s)+parseInt(%s)+parseFloat(%s)', list('0x1e+-.9 n')), ('Util.getOpts({a:1,b:""},%s.split(","))', list('-ab=,1')), ('D.eval(%s)', list('()";:@x ,1') + ['select ', 'create table t', 'insert into t values']), ('D.query(%s,{values:{x:1}})', list('()";:@$[]x ,1') + ['select ', '*']), ('File.glob(%s)', list('*?[]-^/f.a\\')), ('Util.complete(%s)', list('({["\';/`\n*')),
        ('Info.cmds(%s)', list('*?[].FJ-')), ('System.matchObj({a:1},%s)', list('a:,1-')), ('%s.split(%s)', list('ab,\u0000')), ('%s.match(/./g)', list('aé\u0000\u0800')), ('Util.fromCharCode?1:2; unescape?1:2; decodeURI(%s)', list('%41eEcC3a')), ('new Function?1:2; eval("var q="+%s)', list('1a"[{(]})+')), ('%s.toUpperCase().trim().substr(1).replace("a",%s)', list('aé ß\n')), ('Event.update?1:2; File.join(%s,%s); File.dirname(%s); File.tail(%s); File.extension(%s); File.rootname(%s); File.realpath(%s); File.isRelative(%s)', list('a/.~')), ('require(%s)', list('aZ./')), ('I.conf(%s)', list('a.[]0')), ('Info.lookup(%s)', list('a.[]0'))]


def texts(thorough):
    n = 3 if thorough else 2
    for k in range(1, n + 1):
        for t in itertools.product(TOK, repeat=k):
            if k == 3 and len(set(t)) == 1: continue
            for i, x in enumerate(CTX if k < 3 else CTX[:1] + CTX[1 + len(t[0]) % 14:][:1]): yield 'eval(%s)' % json.dumps(x % ' '.join(t))
    for f, al in TEXT:
        m = 4 if thorough and len(al) < 14 else 3
        for k in range(m + 1):
            for t in itertools.product(al, repeat=k): yield f.replace('%s', json.dumps(''.join(t)))


SIZE = [31, 32, 33, 63, 64, 65, 80, 88, 95, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 20000, 65536]


PATHS = ['File.read(%s)', 'File.write(%s,"x")', 'File.exists(%s)', 'File.copy("f.txt",%s)', 'File.rename("f.txt",%s)', 'new Channel(%s,"w+")', 'source(%s)', 'new Sqlite(%s)', 'File.realpath(%s)', 'File.stat(%s)', 'File.glob(%s)', 'File.glob("*",{dir:%s})', 'File.link("f.txt",%s)', 'File.mkdir(%s)', 'require(%s)', 'load(%s)', 'new Interp({scriptFile:%s})', 'File.readlink(%s)', 'File.truncate(%s,0)', 'File.remove(%s)', 'Zvfs.mount(%s)', 'File.chdir(%s)', 'new Interp({isSafe:true,safeWriteDirs:[%s]}).eval("File.write(1,2)")', 'new Interp({lockDown:%s})', 'File.join(%s,"b")', 'Vfs.mount(%s,".")']


DEEP = ['new RegExp("(".repeat(N)+"a"+")".repeat(N))', 'var a=[]; for (var i=0;i<N;i++) a=[a]; a.toString()', 'var a=[]; for (var i=0;i<N;i++) a=[a]; JSON.stringify(a)', 'var a={}; for (var i=0;i<N;i++) a={b:a}; JSON.stringify(a)', 'var a={}; for (var i=0;i<N;i++) a={b:a}; a=null', 'var a=[]; for (var i=0;i<N;i++) a=[a]; a.flat(N)', 'var s="a".repeat(N); s.match(/^(a*)*$/)', 'var a={}; for (var i=0;i<N;i++) { var b={}; b.__proto__=a; a=b; }; a.x', 'var a=[]; for (var i=0;i<N;i++) a=[a]; var b=[]; for (var i=0;i<N;i++) b=[b]; a==b', 'var f=function() { return 1; }; for (var i=0;i<N;i++) f=f.bind(null); f()', 'var a=[]; for (var i=0;i<N;i++) a=[a]; puts(a)', 'var a=[]; for (var i=0;i<N;i++) a=[a]; throw a', 'var a=[]; for (var i=0;i<N;i++) a=[a]; I.call("eval",[a])', 'var a=[]; for (var i=0;i<N;i++) a=[a]; Object.freeze(a); [a].concat(a).sort(); a.join("")', 'JSON.parse("[".repeat(N)+1+"]".repeat(N))', 'JSON.parse("{\\"a\\":".repeat(N)+1+"}".repeat(N))', 'eval("(".repeat(N)+1+")".repeat(N))', 'eval("[".repeat(N)+1+"]".repeat(N))', 'eval("{".repeat(N)+1+"}".repeat(N))', 'eval("!".repeat(N)+1)', 'eval("a=".repeat(N)+1)', 'eval("function(){".repeat(N)+1+"}".repeat(N))', 'var a=[]; for (var i=0;i<N;i++) a=[a]; D.query("select :a",{values:a})', 'var I=new Interp(); for (var i=0; i<N/1000; i++) I.eval("var I=new Interp()")',
        'var a=[1]; a[0]=a; JSON.stringify(a)', 'var a=[1]; a[0]=a; a.flat(5); a.toString(); a==a; puts(a); a.join()', 'var a={}; a.a=a; Object.assign({},a); puts(a); new Interp().conf(a)', 'var f=function() { return f(); }; f()', 'var f=function() { return [1].map(f); }; f()', 'var f=function() { return eval("f()"); }; f()', 'var f=function() { return [1,2].sort(f); }; f()', 'var f=function() { return "a".replace(/a/,f); }; f()', 'var f=function() { return new f(); }; f()', 'var f=function() { return f.call(null); }; f()', 'var f=function() { return f.apply(null,[]); }; f()', 'var f=function() { return f.bind(null)(); }; f()', 'var o={}; Object.defineProperty(o,"a",{get:function() { return o.a; }}); o.a', 'var o={toString:function() { return ""+o; }}; ""+o', 'var o={valueOf:function() { return o+1; }}; o+1', 'I.alias("f",function() { return I.eval("f()"); },null); I.eval("f()")', 'D.func("f",function() { return D.onecolumn("select f()"); }); D.onecolumn("select f()")', 'var f=function() { setTimeout(f,0); update(1); }; f()', 'var f=function() { return require("nosuch"+f()); }; f()', 'File.glob("*",function f() { return File.glob("*",f).length; })', 'I.eval("var f=function() { return new Interp().eval(1)+f(); }; f()")', 'Object.keys({a:1}).map(function g() { return [1].map(g); })', 'var f=function() { try { f(); } finally { f(); } }', 'var p={}; p.__proto__=p; p.x', 'var p={},q={}; p.__proto__=q; q.__proto__=p; p.x; for (var k in p) k; p instanceof Object', 'var a=[]; a.push(a); [a].includes(a); a.indexOf(a); a.sort(); a.concat(a); a.flat(100)', 'var r=[]; for (var i=0;i<N;i++) r.push("a".repeat(i%50)); r.join("/").split("/")']


KEEPV = ['1', '"s".repeat(100)', '[1,[2,"x"]]', '{a:{b:[1]}}', '/x(y)/g', 'function(a:any=0) { return a; }', 'function() { return K; }', 'K', 'new Sqlite()', 'new Interp()', 'new Channel("f.txt")', 'File', 'Math', '(function(a:any=0) { return a; }).bind(null,/z/)', 'Circ()', 'Get()', 'null', 'Sys()']
KEEP = ['provide("P%d",1,{udata:{r:V}})', 'provide("Q%d",1,{info:{r:V}})', 'var kept%d=V', 'Interp.conf({udata:{k:V}})', 'Interp.conf({onEval:function() { V; }})', 'setTimeout(function() { V; },100000)', 'setInterval(function() { return V; },100000)', 'W=new Sqlite(); W.conf({udata:{k:V}})',
        'W=new Sqlite(); W.func("f%d",V)', 'W=new Sqlite(); W.collate("c%d",V)', 'W=new Sqlite({onUpdate:V})', 'W=new Sqlite({onCommit:V}); W.eval("create table t(x)"); W.query("insert into t values(1)")', 'W=new Interp({udata:{k:V}})', 'W=new Interp(); W.alias("k",function(a:any=0,b:any=0) { return V; },[V])', 'W=new Interp(); W.alias("k",V,[K])',
        'W=new Interp({onExit:V})', 'W=new Interp(); W.conf({onEval:V})', 'W={}; W.k=V; W.w=W', 'W=[V]; W[1]=W', 'String.prototype.kk%d=V', 'Array.prototype.kk=V', 'Object.prototype.kk%d=V', 'Function.prototype.kk=V', 'Math.kk%d=V', 'W=function(a:any=0) { return a; }; W=W.bind(null,V)', 'W=function() { var u=V; return function() { return u; }; }; W=W()',
        'W=Object.create({k:V})', 'W={get k() { return V; }}', 'function ff%d(a:any=0) { return arguments; }; W=ff%d(V)', 'Interp.conf({jsppCallback:V})', 'onExit=V', 'W=new Channel("f.txt"); W=[W,V]', 'throw V', 'if (K) { W=V; throw W; }', 'new Interp().eval("1"); W=V', 'W="abc".replace(/b/,function() { W=V; return "x"; })',
        '[1,2].forEach(function(x) { W=V; throw W; })', 'try { throw V; } catch(e) { W=e; }', 'for (var i of [V,V]) { W=i; throw i; }', 'with ({q:V}) { W=q; throw q; }', 'switch (1) { case 1: W=V; throw W; }', 'W=JSON.parse(JSON.stringify({k:1})); W.k=V', 'W=[[V]].concat([V]).slice(0)', 'W=Object.assign({},{k:V})', 'source("none.jsi"); W=V',
        'W=new Socket(); W.conf({udata:{k:V}})', 'W=new MySql(V)', 'W=new Sqlite(); W.onecolumn("select 1"); W=[W,V]', 'var z%d=new Sqlite(); z%d.func("g",function(x) { return V; },1); z%d.query("select g(1)")', 'K=V; delete K', 'W=V; W=null', 'W=Info.named(); W=[W,V]', 'eval("W=V; throw 1")', 'W=new Interp(); W.call("parent.puts",[V])']


def keeps(thorough):
    """Values kept in some place until the interpreter goes: in an interpreter made for it, and at the exit of the program."""
    pro = 'var K=[/k/,{a:1}], W; function Circ() { var a={}; a.a=[a]; return a; }; function Get() { return {get q() { return 1; }}; }; function Sys() { return System; };'
    n = 0
    h = []
    for k in KEEP:
        for v in KEEPV:
            n += 1
            h.append(k.replace('%d', str(n)).replace('V', v))
    def wrap(x): return 'try { eval(%s); } catch(e) { };' % json.dumps(x)
    for i, x in enumerate(h):
        yield '%s %s' % (pro, wrap(x))
        yield 'var II=new Interp(); II.eval(%s); delete II;' % json.dumps(pro + wrap(x) + ' 1')
        yield 'var II=new Interp({isSafe:true}); II.eval(%s); II=null;' % json.dumps(pro + wrap(x) + ' 1')
    m = len(KEEPV)
    for a in range(len(KEEP)):
        for b in range(len(KEEP)):
            for v in range(m) if thorough else [(a * 3 + b) % m]:
                yield 'var II=new Interp(); II.eval(%s); delete II;' % json.dumps(pro + wrap(h[a * m + v]) + wrap(h[b * m + (v + a) % m]) + ' 1')


def sizes(P, thorough):
    """Long texts: a repeated character with a tail, and long strings for every string parameter."""
    for f, al in TEXT:
        for n in SIZE if thorough else [80, 101, 201, 257, 1025, 4097, 8193]:
            for u, t in itertools.product(al, [''] + al if thorough else [''] + al[::3]):
                if len(u) == 1 and not (f.startswith('format') and u in '123456789') and not ('RegExp' in f and u in '^$' and n > 300): yield f.replace('%s', '"%s".repeat(%d)+%s' % (json.dumps(u)[1:-1], n, json.dumps(t)))
        for n in SIZE[::3] if thorough else [300, 9000]:
            for pre in itertools.product(al, repeat=2):
                for u in al if thorough else ('a', al[0]):
                    if len(u) == 1 and not (f.startswith('format') and u in '123456789') and not ('RegExp' in f and n > 300): yield f.replace('%s', '%s+"%s".repeat(%d)' % (json.dumps(''.join(pre)), json.dumps(u)[1:-1], n))
    for n in sorted({k + d for k in SIZE if k < 1100 for d in (-2, -1, 0, 1, 2)}) if thorough else (100, 250, 253, 254, 255, 256, 257, 260, 500):
        for g in ('(a)', '(?:a)', '(a|b)', '(a)?', '[a]', '\\\\w'):
            for f in ('"a".repeat(%d).replace(r,function(){return arguments.length;})', '"a".repeat(%d).match(r)', '"a".repeat(%d).replace(r,"$1$9$&")', 'r.exec("a".repeat(%d))', 'r.test("a".repeat(%d))', '"a".repeat(%d).split(r)'): yield 'var r=new RegExp("%s".repeat(%d)); ' % (g, n) + f % n
        for f in ('var f=function() { return arguments.length; }; f.apply(null,[X])', 'Math.max(X)', 'format("%d".repeat(N),X)', '[].push(X)', '[1].concat(X)', 'new Interp().eval("f(X)")', 'eval("var f=function(P) { return a1; }; f(X)")', 'eval("var o={Q}; o.a1")', 'eval("(".repeat(N)+1+")".repeat(N))', 'eval("[".repeat(N)+1+"]".repeat(N))', 'eval("{".repeat(N)+1+"}".repeat(N))', 'eval("if(1){".repeat(N)+1+"}".repeat(N))', 'eval("try{".repeat(N)+1+"}catch(e){}".repeat(N))', 'eval("for(;0;){".repeat(N)+1+"}".repeat(N))', 'JSON.parse("[".repeat(N)+1+"]".repeat(N))', 'JSON.parse("{\\"a\\":".repeat(N)+1+"}".repeat(N))', 'eval("!".repeat(N)+1)', 'eval("1+".repeat(N)+1)', 'eval("1?".repeat(N)+1+":1".repeat(N))', 'eval("a=".repeat(N)+1)', 'eval("with({a:1}){".repeat(N)+1+"}".repeat(N))', 'eval("switch(1){case 1:".repeat(N)+1+"}".repeat(N))', 'eval("function(){".repeat(N)+1+"}".repeat(N))', 'D.eval("select "+"?,".repeat(N)+"1")', 'D.query("select "+"1,".repeat(N)+"1")', 'D.query("select "+":x,".repeat(N)+"1",{values:{x:1}})'):
            yield f.replace('X', ','.join(['1'] * n)).replace('P', ','.join('a%d' % i for i in range(n))).replace('Q', ','.join('a%d:1' % i for i in range(n))).replace('N', str(n))
    for f in DEEP:
        for n in (1000, 20000, 60000) if thorough else (20000,): yield f.replace('N', str(n))
    for f in PATHS:
        for n in (100, 4000, 4090, 4095, 4096, 4097, 8192, 9000, 70000) if thorough else (4095, 9000):
            for pre in ('', '/', './', '../', '~/', '~', '/zvfs/', '/tmp/../', 'f.txt/'):
                for u in ('a', 'a/', '../', './', '/') if thorough else ('a', 'a/', '../'):
                    for safe in (0, 1):
                        x = f.replace('%s', '%s+"%s".repeat(%d)' % (json.dumps(pre), u, n // len(u)))
                        yield 'S.eval(%s)' % json.dumps(x) if safe else x
    for cl, rs in CL.items():
        for f in P[cl]:
            n = (cl + '.' if cl else '') + f['n']
            if n in SKIP or n in SLOW or (cl == '' and f.get('t') != 'command'): continue
            mx = f.get('mx'); mx = 3 if mx is None or mx < 0 else mx
            cc = n + '(%s)' if rs is None else 'var o=%s; o.%s' % (rs[0], f['n']) + '(%s)'
            for z in SIZE if thorough else [100, 200, 256, 512, 1024, 4096, 8192, 70000]:
                for ch in ('a', '/', 'é') if thorough else ('a',):
                    x = '"%s".repeat(%d)' % (ch, z)
                    for t in [(x,), (x, x), (x, '1'), ('"a"', x), ('1', x), ('[%s]' % x,), ('{a:%s}' % x,), ('{%s:1}' % ('a' * z),), (x, x, x), ('"a"', '1', x)]:
                        if len(t) <= mx: yield cc % ','.join(t)
            for o in f.get('o') or []:
                for z in SIZE[::3] if thorough else (200, 4096):
                    for base in ('', '"a",', 'function(){return 1;},'): yield cc % ('%s{%s:"a".repeat(%d)}' % (base, o, z))


class Runner:
    def __init__(self, c, exe, root):
        self.c, self.exe, self.root, self.n, self.lk = c, exe, root, 0, threading.Lock()
        self.bad, self.slow, self.done = [], [], 0

    def script(self, cs):
        out = []
        for k, s in enumerate(cs):
            pro = ('var S=new Interp({isSafe:true,safeReadDirs:["."],safeWriteDirs:["."]}); ' if re.match(r'S\b', s) else '') + ('var I=new Interp(); ' if re.search(r'\bI\b', s) else '') + ('var D=new Sqlite(); ' if re.search(r'\bD\b', s) else '') + ('var L="x".repeat(5000); ' if re.search(r'\bL\b', s) else '') + ('var N={a:{b:[1,{c:2}]}}; ' if re.search(r'\bN\b', s) else '')
            out.append('console.error("#@%d"); try { eval(%s); } catch(e) { }' % (k, json.dumps(pro + s)))
        return '\n'.join(out) + '\nconsole.error("#@ALLDONE");\n'

    def once(self, cs, tmo=30):
        with self.lk: self.n += 1; i = self.n
        d = '%s/k%d' % (self.root, i)
        os.makedirs(d); os.chmod(d, 0o777)
        open(d + '/f.txt', 'w').write('line1\nline2\n'); os.chmod(d + '/f.txt', 0o666)
        open(d + '/t.jsi', 'w').write(self.script(cs))
        kw = dict(user=NOBODY, group=NOBODY) if self.c.drop else {}
        p = subprocess.Popen([self.exe, 't.jsi'], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=limit,
            env={'HOME': d, 'PATH': '/nonexistent', 'LANG': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:max_allocation_size_mb=1000:allocator_may_return_null=1:hard_rss_limit_mb=1500'}, **kw)
        # Keep the end of the output only: messages can be long.
        o, t0, rc, n = b'', time.time(), None, 0
        fd = p.stderr.fileno()
        while True:
            left = tmo - (time.time() - t0)
            if left <= 0 or not select.select([fd], [], [], left)[0]: break
            x = os.read(fd, 1 << 16)
            if not x: rc = p.wait(); break
            o += x; n += len(x)
            if len(o) > 2000000: o = o[-1000000:]
        if rc is None:
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait()
        p.stderr.close()
        shutil.rmtree(d, ignore_errors=True)
        ks = re.findall(rb'#@(\d+)', o)
        last = re.split(rb'#@\d+', o)[-1].decode('utf8', 'replace')
        if b'#@ALLDONE' in o and rc is not None and rc >= 0 and b'ERROR: AddressSanitizer' not in o: return None
        k = int(ks[-1]) if ks else 0
        if rc is None: return k, 'TIMEOUT', ''
        if 'hard rss limit' in last or 'out of memory' in last or 'out-of-memory' in last: return k, 'MEMORY', last
        if b'ERROR: AddressSanitizer' in o or rc < 0 or 'Assertion' in last or b'#@ALLDONE' in o: return k, 'BAD', last
        return k, 'EXIT', last

    def batch(self, cs):
        n0 = len(cs)
        while cs and len(self.bad) < 12:
            r = self.once(cs)
            if r is None: break
            k, what, o = r
            with self.lk:
                if what == 'BAD':
                    self.bad.append((cs[:k + 1], o))
                elif what in ('TIMEOUT', 'MEMORY'): self.slow.append(cs[k])
            cs = cs[k + 1:]
        with self.lk: self.done += n0


def describe(o):
    m = re.search(r'ERROR: AddressSanitizer:? ?([\w-]+)', o)
    fr = re.findall(r'#\d+ 0x\w+ in (\w+) ', o)
    a = re.search(r'Assertion .*', o)
    return (a.group(0) if a else 'AddressSanitizer: %s in %s' % (m.group(1), ' < '.join(fr[:4])) if m else 'the interpreter died: ' + o[-200:])


def main():
    c = Ctx('M01')
    b = c.build('asan')
    root = c.shm(); os.chmod(root, 0o755)
    exe = root + '/jsish'
    shutil.copy(os.path.realpath(b + '/jsish'), exe); os.chmod(exe, 0o755)
    P = proto(c, exe)
    fam = {'builtin calls': list(builtin_calls(P, c.thorough)), 'constructor options': list(construct_options(P, c.thorough)), 'operators': list(operators(c.thorough)),
           'reentrancy': list(reentrancy(c.thorough)), 'texts': list(texts(c.thorough)), 'sizes': list(sizes(P, c.thorough)), 'pairs of operations': list(pairs(P, c.thorough)), 'kept values': list(keeps(c.thorough))}
    R = Runner(c, exe, root)
    work = root + '/w'; os.makedirs(work); os.chmod(work, 0o755); R.root = work
    seen = set(); cs = []
    for v in fam.values():
        for s in v:
            if s not in seen: seen.add(s); cs.append(s)
    nb = max(1, len(cs) // 400)
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(R.batch, [cs[i::nb] for i in range(nb)]))
    for bad, o in R.bad:
        if c.stop: break
        # the last case by itself, or the shortest tail of the batch that fails
        k = 1
        while True:
            r = R.once(bad[-k:])
            if r and r[1] == 'BAD' or k >= len(bad): break
            k = min(len(bad), k * 4)
        if not r or r[1] != 'BAD': c.flaky += 1; continue
        src = R.script(bad[-k:])
        c.report(Case(bad[-1], src, ''), r[2][-2000:], describe(r[2]), '// run with an AddressSanitizer build, in an empty directory with a file f.txt\n' + src)
    c.outcomes.update(fam)
    c.cov['states'] = len(cs); c.cov['transitions'] = R.done; c.cov['traces_validated_against_impl'] = R.done
    c.cov['functions'] = sum(len(v) for v in P.values())
    c.cov['families'] = {k: len(v) for k, v in fam.items()}
    c.cov['did not end'] = R.slow[:20]
    c.cov['samples'] = cs[::max(1, len(cs) // 10)]
    c.cov['exhaustive'] = True
    c.assumptions += ['Leaks are not looked for.', 'Functions that wait, end the process or signal others (sleep, update, exit, kill, alarm, console.input) are left to other checks.', 'Programs that do not end within 30 s, or use more than 1.5 GB, are not judged (listed under "did not end").']
    c.finish()


if __name__ == '__main__':
    main()
