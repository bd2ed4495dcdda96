"""Containment of safe interpreters: every program of a bounded space of adversary programs, in every configuration of the
safe options, runs on the real interpreter over a scratch tree whose files say where they live; afterwards the tree
and the output are compared with the authority that the configuration gives."""
import hashlib, io, itertools, json, os, re, shutil, sqlite3, stat, subprocess, sys, time, zipfile
from multiprocessing import get_context
from mc.core import Ctx, Case, NCPU, NOBODY

DIRS = ('r', 'w', 'b', 'out', 'rx', 'wx', 'o')   # o: what the links lead to goes elsewhere, with the name of no prefix
# name -> (options, readable, writable, exec commands allowed, may create)
RX = ('r', 'b')
CONF = {
    'safe': ('{isSafe:true}', (), (), 0, 1),
    'R': ('{isSafe:true,safeReadDirs:["@/r"]}', ('r',), (), 0, 1),
    'R/': ('{isSafe:true,safeReadDirs:["@/r/"]}', ('r',), (), 0, 1),
    'W': ('{isSafe:true,safeWriteDirs:["@/w"]}', (), ('w',), 0, 1),
    'RW': ('{isSafe:true,safeReadDirs:["@/r","@/b"],safeWriteDirs:["@/w/","@/b"]}', RX, ('w', 'b'), 0, 1),
    'RWx': ('{isSafe:true,safeReadDirs:["@/r","@/b"],safeWriteDirs:["@/w/","@/b"],safeExecPattern:"^echo "}', RX, ('w', 'b'), 1, 1),
    'mread': ('{isSafe:true,safeMode:"read",safeReadDirs:["@/r","@/b"],safeWriteDirs:["@/b"]}', RX, ('b',), 0, 1),
    'mnone': ('{safeMode:"writeRead"}', (), (), 0, 1),
    'mlock': ('{isSafe:true,safeMode:"lockdown",safeReadDirs:["@/r","@/b"],safeWriteDirs:["@/w/","@/b"]}', RX, ('w', 'b'), 0, 0),
    'lock': ('{lockDown:"@/b"}', ('b',), ('b',), 0, 0),
    'file': ('{isSafe:true,safeReadDirs:["@/r/f.txt","@/b"],safeWriteDirs:["@/b/f.txt","@/b/d"]}', ('b', 'r/f.txt'), ('b/f.txt', 'b/d'), 0, 1),
}

PF = ['@/out/secret.txt', 'out/secret.txt', '@/r/../out/secret.txt', '@/r/d/../..//./out/secret.txt', '@/r/lnk', '@/b/lnk', '@/w/lnk', '@/r/dl/secret.txt', '@/b/dl/secret.txt', '@/w/dl/secret.txt',
      '@/r/lnk2', '@/rx/secret.txt', '@/wx/secret.txt', '~/secret.txt', '@/b/nope/../../out/secret.txt', '@/b/z/../../out/secret.txt', '@/b/dsub/../secret.txt', '@/out/toin', '/@/out/secret.txt', '@/b/d/../../b/../out/secret.txt', '@/r/f.txt', '@/w/f.txt', '@/b/f.txt', '@/r/d/../f.txt', 'r/in', '@/w/d/../in']
PN = ['@/out/new', 'out/new', '@/w/../out/new', '@/b/../out/new', '@/w/dang', '@/b/dang', '@/b/dang2', '@/w/dl/new', '@/b/dl/new', '@/b/dl/../out/new', '@/w/nope/../../out/new', '@/wx/new', '~/new', '@/b/dsub/../new',
      '@/b/z/../../out/new', '@/b/dz/new', '@/b/nope/dl/../../dl/new', '@/b/dl/../dl/new', '@/b/d/../dl/nope/../new', '@/bnew', '@', '@/r/new', '@/r/din/new', '@/w/new']
PD = ['@/out', 'out', '@/b/../out', '@/b/dl', '@/w/dl', '@/r/dl', '@/rx', '@/wx', '~', '@/b/d/../../out', '@/b/dl/', '@/out/sub', '@/b/dl/sub', '@/b/z/../../out', '@', '@/b/..', '@/b/dl/.', '/', '@/r', '@/w', '@/r/d', '@/w/din']

def db(s): return 'var D=new Sqlite("@/b/i.db"); ' + s
q = 'JSON.stringify(D.query(%s))'
EV = '"File.read("+JSON.stringify(%P)+")"'
WV = '"File.write("+JSON.stringify(%P)+",\'EVIL\')"'
READ = ['File.read(%P)', 'File.read(%P,"r")', 'File.read(%P,"rz")', 'File.read(%P,"rb+")', 'var c=new Channel(%P,"r"); c.read()', 'var c=new Channel(%P,"r+"); c.gets()', 'var c=new Channel("@/b/f.txt"); c.open(%P,"r"); c.read()', 'source(%P)',
    'Interp.source(%P)', 'import(%P)', 'Util.hash("",{file:%P})', 'File.copy(%P,"@/w/x"); 1', 'File.copy(%P,"@/b/x"); 1', 'File.copy(%P,"@/b/f.txt",true); 1', 'File.link(%P,"@/b/x",true); File.read("@/b/x")', 'File.link(%P,"@/b/x"); File.read("@/b/x")',
    'File.rename(%P,"@/b/x"); 1', 'new Interp({scriptFile:%P})', 'var i=new Interp(); i.source(%P)', 'var i=new Interp({isSafe:false}); i.eval(' + EV + ')', 'var i=new Interp({confFile:%P}); JSON.stringify(i.conf())',
    'var i=new Interp({safeReadDirs:["@/out"],safeMode:"none"}); i.eval(' + EV + ')', 'var i=new Interp({lockDown:"@/out"}); i.eval(' + EV + ')', 'var i=new Interp({confFile:"@/b/c.json"}); i.eval(' + EV + ')', 'var i=new Interp({confFile:"@/b/c2.json"}); i.eval(' + EV + ')',
    'try { Interp.conf({safeReadDirs:["@/out"]}); } catch(e) { } File.read(%P)', 'try { Interp.conf("safeReadDirs").push("@/out"); } catch(e) { } File.read(%P)', 'try { var CC=Interp.conf(); CC.safeReadDirs[0]="@/out"; CC.isSafe=false; } catch(e) { } File.read(%P)', 'try { Interp.conf({isSafe:false}); } catch(e) { } File.read(%P)', 'try { Interp.conf({safeMode:"none"}); } catch(e) { } File.read(%P)', 'Interp.conf({autoFiles:[%P]}); foobar()',
    'Zvfs.mount(%P)', 'Vfs.mount("Zvfs",%P)', db('D.import("tt",%P); ' + q % '"select * from tt"'), db('D.import("t",%P,{conflict:"REPLACE"}); ' + q % '"select * from t"'),
    'exec("cat "+%P)', 'exec("echo \\ncat "+%P)', 'exec("echo `cat "+%P+"`")', 'exec("echo <"+%P)', 'exec("echo ;cat "+%P)', 'exec("echo &&cat "+%P)', 'exec("echo |cat "+%P)', 'exec("echo",{inputStr:"",chdir:"/"}); exec("echo "+"$(cat "+%P+")")', 'Vfs.exec("cat "+%P)', 'Vfs.exec("fossil info \\ncat "+%P)', 'var i=new Interp({scriptStr:' + EV + '}); i.conf("retValue")',
    'Interp.eval("source("+JSON.stringify(%P)+")")', 'File.chdir("@/r"); File.read(%P)', 'console.input(%P)', 'load(%P)', 'moduleRun(%P)', 'source(%P,{isMain:true,autoIndex:true})', 'source([%P])', 'source(%P,{noEval:true})', 'Interp.conf({historyFile:%P}); console.input()',
    'var i=new Interp({safeReadDirs:["@/out"],safeWriteDirs:["@/out"],safeExecPattern:"."}); i.eval("exec(\\"cat "+%P+"\\")")', 'var i=new Interp({subthread:true,scriptStr:' + EV + '})', 'Interp.conf({debugOpts:{putsCallback:"PW"}}); puts(%P)', 'Interp.conf({debugOpts:{msgCallback:"PMW"}}); LogError(%P)', 'Interp.conf({busyCallback:"PBW",busyInterval:1}); for (var i=0; i<2000; i++) { i+0; }',
    'var i=new Interp({scriptFile:"@/b/s.jsi"}); i.eval(' + EV + ')', 'var i=new Interp({safeMode:"read"}); i.source("@/b/s.jsi"); i.eval(' + EV + ')', 'JSON.stringify(Interp.uplevel("File.read("+JSON.stringify(%P)+")",0))', 'var i=new Interp(); i.alias("rd",File.read,null); i.eval("rd("+JSON.stringify(%P)+")")', 'var i=new Interp(); i.alias("rd",function(s) { return File.read(s); },null); i.eval("rd("+JSON.stringify(%P)+")")']
SRC = ['source(%P)', 'source(%P,{global:true})', 'source([%P])', 'Interp.source(%P)', 'import(%P)', 'new Interp({scriptFile:%P})', 'var i=new Interp(); i.source(%P)', 'var i=new Interp({safeMode:"read"}); i.source(%P)', 'var i=new Interp({safeMode:"writeRead",scriptFile:%P})',
    'Interp.conf({autoFiles:[%P]}); foobar()', 'new Interp({autoFiles:[%P],scriptStr:"foobar();"})', 'Interp.conf({pkgDirs:["@/out"]}); require("sc")', 'var i=new Interp({pkgDirs:["@/out"]}); i.eval("require(\'sc\')")', 'Interp.eval("source("+JSON.stringify(%P)+")")', 'moduleRun(%P)',
    'Interp.conf({scriptFile:%P})', 'setTimeout(function() { source(%P); },1); update(5)', 'require("../out/sc")', 'require("out/sc")', 'var i=new Interp({jsppChars:"a",scriptFile:%P})']
SOF = ['@/out/mx.so', 'out/mx.so', '@/b/dl/mx.so', '@/b/mx.so', '@/r/mx.so']
LOAD = ['load(%P)', 'Interp.conf({pkgDirs:["@/out"]}); require("mx")', 'Interp.conf({pkgDirs:["@/b"]}); require("mx")', 'var i=new Interp(); i.eval("load("+JSON.stringify(%P)+")")', 'var i=new Interp({noLoad:false}); i.eval("load("+JSON.stringify(%P)+")")', db('D.eval("select load_extension(\'"+%P+"\',\'Jsi_Initmx\')")'),
    db('D.conf({load:true}); D.query("select load_extension(\'"+%P+"\',\'Jsi_Initmx\')")'), 'var D=new Sqlite(":memory:",{load:true}); D.query("select load_extension(\'"+%P+"\',\'Jsi_Initmx\')")', 'var D=new Sqlite(null,{load:true}); D.eval("select load_extension(\'"+%P+"\');")']
DBR = ['var D=new Sqlite(%P); ' + q % '"select * from t"', 'var D=new Sqlite(%P,{readonly:true}); ' + q % '"select * from t"', db('D.eval("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"'), 'var D=new Sqlite(); D.eval("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"',
    'var D=new Sqlite(":memory:"); D.query("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"', 'var D=new Sqlite(); D.restore(%P); ' + q % '"select * from t"', 'var D=new Sqlite(); D.eval("ATTACH \'"+%P+"\' AS z; insert into z.t values(2);")', 'var D=new Sqlite(null); D.query("ATTACH ? AS z",{values:[%P]}); ' + q % '"select * from z.t"',
    'var D=new Sqlite(); D.eval("create table t(x);"); D.backup(%P)', 'var D=new Sqlite(%P,{vfs:"unix-none",readonly:true}); ' + q % '"select * from t"', 'var D=new Sqlite(null,{onAuth:function(db:userobj,code:string,a:string,b:string,c:string,d:string) { return 0; }}); D.query("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"', 'var D=new Sqlite(null,{onAuth:function(db:userobj,code:string,a:string,b:string,c:string,d:string) { return 0; }}); D.conf({onAuth:null}); D.query("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"',
    'var D=new Sqlite(); D.query("ATTACH \'"+%P+"\'||\'\' AS z"); ' + q % '"select * from z.t"', 'var D=new Sqlite(); D.query("ATTACH (select \'"+%P+"\') AS z"); ' + q % '"select * from z.t"', 'var D=new Sqlite(); D.query("PRAGMA journal_mode=wal; ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"', 'var D=new Sqlite(null,{udata:{}}); D.func("f",function(x) { return 1; }); D.query("ATTACH \'"+%P+"\' AS z"); ' + q % '"select * from z.t"']
DBN = ['new Sqlite(%P)', 'var D=new Sqlite(%P); D.eval("create table q(a)")', 'var D=new Sqlite(); D.eval("create table t(x);"); D.backup(%P)', 'var D=new Sqlite(); D.eval("create table t(x);VACUUM INTO \'"+%P+"\'")', 'var D=new Sqlite(); D.eval("create table t(x);"); D.query("VACUUM INTO \'"+%P+"\'")',
    'var D=new Sqlite(); D.eval("ATTACH \'"+%P+"\' AS z; create table z.t(x)")', 'var D=new Sqlite(); D.eval("PRAGMA temp_store_directory=\'"+%P+"\'")', db('D.backup(%P,"main")'), db('D.eval("VACUUM main INTO \'"+%P+"\';")')]
CRE = ['File.write(%P,"EVIL")', 'File.write(%P,"EVIL","a")', 'File.write(%P,"EVIL","wz")', 'File.write(%P,"EVIL","wb+")', 'var c=new Channel(%P,"w"); c.write("EVIL"); c.close()', 'var c=new Channel(%P,"a"); c.write("EVIL"); c.close()', 'var c=new Channel(%P,"w+"); c.write("EVIL"); c.close()', 'var c=new Channel(%P,"wz"); c.write("EVIL"); c.close()',
    'var c=new Channel("@/b/f.txt"); c.open(%P,"w"); c.write("EVIL"); c.close()', 'File.read(%P,"w")', 'File.read(%P,"a")', 'File.copy("@/b/f.txt",%P)', 'File.copy("@/b/f.txt",%P,true)', 'File.rename("@/b/f.txt",%P)', 'File.rename("@/b/f.txt",%P,true)', 'File.rename("@/b/d",%P)', 'File.link("@/b/f.txt",%P)', 'File.link("@/b/f.txt",%P,true)', 'File.link("f.txt",%P)', 'File.mkdir(%P)',
    'File.mkdir(%P+"/q",true)', 'File.mkdir(%P,true)', 'File.mknod(%P,4516,0)', 'File.tempfile(%P+"XXXXXX")', 'Zvfs.create(%P,["@/b/f.txt"])', 'Zvfs.create(%P,"@/b/f.txt")', 'var i=new Interp({isSafe:false}); i.eval(' + WV + ')', 'var i=new Interp({isSafe:true,safeWriteDirs:["@/out"]}); i.eval(' + WV + ')',
    'var i=new Interp({lockDown:"@/out"}); i.eval(' + WV + ')', 'exec("touch "+%P)', 'exec("echo hi > "+%P)', 'exec("echo hi\\ntouch "+%P)', 'exec("echo hi >>"+%P,{noRedir:false})', 'exec("echo hi",{chdir:%P})', 'Vfs.exec("touch "+%P)', 'var i=new Interp({confFile:"@/b/c2.json"}); i.eval(' + WV + ')', 'File.chdir("@/b"); File.write(%P,"EVIL")', 'Interp.conf({historyFile:%P})',
    'try { Interp.conf({lockDown:"."}); } catch(e) { } File.write(%P,"EVIL")', 'try { Interp.conf({safeExecPattern:"."}); } catch(e) { } exec("touch "+%P)', 'File.link("../out/new2","@/b/zz"); File.write("@/b/zz","EVIL")', 'File.link("@/b/d","@/b/zz"); File.write("@/b/zz/../../out/new","EVIL")', 'Interp.conf({debugOpts:{putsCallback:"PW"}}); puts(%P)', 'try { Interp.conf({safeWriteDirs:["@/out"]}); } catch(e) { } File.write(%P,"EVIL")', 'try { Interp.conf("safeWriteDirs").push("@"); } catch(e) { } File.write(%P,"EVIL")', 'Interp.conf({coverage:true,profile:true,traceCallback:"PW"}); 1']
MOD = ['File.write(%P,"EVIL")', 'File.write(%P,"EVIL","a")', 'var c=new Channel(%P,"a"); c.write("EVIL"); c.close()', 'var c=new Channel(%P,"r+"); c.write("EVIL"); c.close()', 'File.truncate(%P,1)', 'File.chmod(%P,511)', 'File.chmod(%P,292)', 'File.remove(%P)', 'File.remove(%P,true)', 'File.rename(%P,"@/b/zz")', 'File.rename("@/b/f.txt",%P,true)', 'File.copy("@/b/f.txt",%P,true)',
    'File.link(%P,"@/b/zz",true); File.write("@/b/zz","EVIL")', 'File.link(%P,"@/b/zz"); File.truncate("@/b/zz",0)', 'File.read(%P,"wb")', 'File.read(%P,"r+")', 'Zvfs.append(%P,["@/b/f.txt"])', 'Zvfs.truncate(%P)', 'Zvfs.create(%P,["@/b/f.txt"])', 'Zvfs.deflate(%P)']
DIRA = ['File.glob("*",{dir:%P})', 'File.glob(%P+"/*")', 'File.glob(null,{dir:%P})', 'File.glob("*",{dir:%P,recurse:true})', 'File.glob("*",{dir:%P,retInfo:true})', 'File.glob(/./,{dir:%P})', 'File.glob(%P+"/*/*")', 'File.glob(%P+"/s*")', 'File.chdir(%P); File.read("secret.txt")', 'File.chdir(%P); File.glob("*")', 'File.remove(%P,true)', 'File.rename(%P,"@/b/zz")', 'File.chmod(%P,511)',
    'File.link(%P,"@/b/zz"); File.read("@/b/zz/secret.txt")', 'File.link(%P,"@/b/zz"); File.glob("@/b/zz/*")', 'File.mkdir(%P+"/n2")', 'File.write(%P+"/n2","EVIL")', 'File.read(%P+"/secret.txt")', 'File.copy(%P,"@/b/zz",true)']
JS = [p.replace('secret.txt', 'sc.jsi').replace('lnk', 'ljs') for p in PF if 'lnk2' not in p and 'toin' not in p and 'f.txt' not in p and '/in' not in p] + ['@/w/t.jsi']
DBF = [p.replace('secret.txt', 's.db').replace('lnk', 'ldb') for p in PF if 'lnk2' not in p and 'toin' not in p and 'f.txt' not in p and '/in' not in p] + ['@/r/i.db', '@/w/i.db', '@/b/../w/i.db', 'file:@/out/s.db', 'file:@/b/../out/s.db?mode=ro', 'file:///@/out/s.db', '@/b/i.db/../../out/s.db']
PZ = ['@/out/z.zip', 'out/z.zip', '@/b/dl/z.zip', '@/r/dl/z.zip', '@/b/../out/z.zip', '@/r/z.zip', '@/w/z.zip']
ZIP = ['var m=Zvfs.mount(%P); File.read(m+"/t")', 'var m=Zvfs.mount(%P,"/zz"); File.read("/zz/t")', 'Zvfs.append(%P,["@/b/f.txt"])', 'Zvfs.truncate(%P)', 'Zvfs.create("@/b/n.zip",[%P]); var m=Zvfs.mount("@/b/n.zip"); 1', 'JSON.stringify(Zvfs.stat(%P))', 'Zvfs.create("@/b/n.zip",["secret.txt"],"@/out"); 1', 'File.copy(%P,"@/b/n.zip"); var m=Zvfs.mount("@/b/n.zip"); File.read(m+"/t")']
MISC = ['var i=new Interp({confFile:"@/out/c.json"}); JSON.stringify(i.conf())', 'Util.vueConvert("@/out/v.vue")', 'Util.vueConvert("@/b/dl/v.vue")', 'moduleRun("@/out/sc")', 'Interp.conf({pkgDirs:["@/out"]}); moduleRun("sc")', 'new Sqlite("@/b/dl/new.db",{noCreate:false})', 'Info.script(); Info.data()', 'JSON.stringify(File.glob("*",{dir:"@/out",recurse:true}))', 'JSON.stringify(File.glob("../out/*"))', 'JSON.stringify(File.glob("**/*",{dir:"@"}))', 'JSON.stringify(File.glob(null,{dir:"@",recurse:true,maxDepth:5}))', 'JSON.stringify(File.glob("*/*"))', 'JSON.stringify(File.glob("b/*/*"))', 'JSON.stringify(File.glob("@/b/dl/*/*"))', 'JSON.stringify(File.glob("@/b/*/s*"))', 'JSON.stringify(File.glob(null,{dir:"@/b",recurse:true}))', 'JSON.stringify(File.glob(/s/,{dir:"@/b",recurse:true}))', 'JSON.stringify(File.glob("*",{dir:"@/b",recurse:true,retCount:true,prefix:"@/out"}))',
    'File.remove("@/b",true); 1', 'File.remove("@/b/dl",true); 1', 'File.remove("@/b/dl/",true); 1', 'File.remove("@/b/dl/.",true); 1', 'File.remove("@/b/d/../../out",true); 1', 'File.remove("@/b/..",true); 1', 'File.remove("@/b/.",true); 1', 'File.rename("@/b","@/b2")', 'File.rename("@/b/d","@/out/d")', 'File.chmod("@/b",0)', 'File.chmod("@/b/lnk",0)', 'File.chmod("@/b/dl",511)', 'File.truncate("@/b/lnk",0)', 'File.truncate("@/b/dl/secret.txt",0)', 'File.copy("@/b/f.txt","@/b/lnk",true)', 'File.copy("@/b/f.txt","@/b/lnk")', 'File.rename("@/b/f.txt","@/b/dl/secret.txt",true)', 'File.link("@/out/secret.txt","@/b/hl",true); File.read("@/b/hl")', 'File.link("@/b/lnk","@/b/hl",true); File.read("@/b/hl")']
FAMS = [('zip', ZIP, PZ), ('misc', MISC, PF), ('read', READ, PF), ('src', SRC, JS), ('load', LOAD, SOF), ('dbr', DBR, DBF), ('dbn', DBN, PN), ('cre', CRE, PN), ('mod', MOD, PF), ('dir', DIRA, PD)]

# what the adversary does before (history), and how it gets an action to run
PRE = ['File.link("@/out","@/b/h"); ', 'File.link("../out","@/b/h"); ', 'File.link("../out","@/b/d/h"); File.rename("@/b/d/h","@/b/h"); ', 'File.rename("@/b/dl","@/b/h"); ', 'File.rename("@/b/z","@/b/d/h0"); File.rename("@/b/d/h0","@/b/h"); ', 'File.remove("@/b/d",true); File.rename("@/b/dl","@/b/d"); ',
    'File.rename("@/b/lnk","@/b/f.txt",true); ', 'File.copy("@/b/lnk","@/b/h",true); ', 'File.link("@/b/lnk","@/b/h",true); ', 'File.link("@/b/dl","@/b/h"); ', 'File.chdir("@/b"); ', 'File.chdir("@/r"); ', 'File.chdir("@/b/d"); ', 'File.chdir("@/b/dl"); ', 'File.write("@/b/c3.json","{isSafe:false,safeReadDirs:[\\"@/out\\"]}"); ', 'File.mkdir("@/b/h"); File.link("../../out","@/b/h/h"); ', 'try { Interp.conf({safeReadDirs:["@"],safeWriteDirs:["@"]}); } catch(e) { } ', 'try { Interp.conf({isSafe:false}); } catch(e) { } ', 'File.link("z/../../out","@/b/h"); ', 'File.copy("@/b/f.txt","@/b/h/../../out/new"); ']
HP = ['@/out/secret.txt', '@/b/h/secret.txt', 'h/secret.txt', '../out/secret.txt', '@/b/h', '@/b/d/secret.txt', '@/b/f.txt', '@/b/h/../out/secret.txt', '@/b/h/h/secret.txt', '../../out/secret.txt', 'dl/secret.txt', 'lnk']
HN = ['@/out/new', '@/b/h/new', 'h/new', '../out/new', '@/b/d/new', '@/b/h/h/new', 'dl/new', 'dang', '../dl/new', '@/b/h/../out/new']
HA = ['File.read(%P)', 'var c=new Channel(%P,"r"); c.read()', 'source(%P)', 'File.copy(%P,"@/b/x"); File.read("@/b/x")', 'Util.hash("",{file:%P})', 'var i=new Interp({isSafe:false,safeReadDirs:["@/out"]}); i.eval(' + EV + ')', 'var i=new Interp({confFile:"@/b/c3.json"}); i.eval(' + EV + ')', 'new Sqlite(%P)', 'File.write(%P,"EVIL")', 'File.truncate(%P,1)', 'File.remove(%P)', 'File.chmod(%P,511)', 'File.rename(%P,"@/b/zz")', 'File.glob(File.dirname(%P)+"/*")']
HC = ['File.write(%P,"EVIL")', 'var c=new Channel(%P,"a"); c.write("EVIL"); c.close()', 'File.mkdir(%P)', 'File.rename("@/b/s.jsi",%P)', 'File.copy("@/b/s.jsi",%P)', 'File.link("@/b/s.jsi",%P,true)', 'File.tempfile(%P+"XXXXXX")', 'var D=new Sqlite(%P); D.eval("create table q(a)")', 'var D=new Sqlite(); D.eval("ATTACH \'"+%P+"\' AS z; create table z.q(a)")', 'Zvfs.create(%P,["@/b/f.txt"])']
WRAP = ['%s', 'var i=new Interp(); i.eval(%S)', 'var i=new Interp({isSafe:false,safeMode:"none"}); i.eval(%S)', 'var i=new Interp({scriptStr:%S})', 'Interp.eval(%S)', 'Interp.uplevel(%S,0)', 'setTimeout(function() { %s; },1); update(20)', 'setInterval(function() { %s; },1); update(20)', 'File.write("@/b/g.jsi",%S); source("@/b/g.jsi")', 'File.write("@/b/g.jsi",%S); Interp.source("@/b/g.jsi")', 'File.write("@/b/g.jsi",%S); var i=new Interp({scriptFile:"@/b/g.jsi"})', 'File.write("@/b/g.jsi",%S); var i=new Interp({safeMode:"writeRead"}); i.source("@/b/g.jsi")',
        '[1].forEach(function(x) { %s; })', 'var D=new Sqlite(); D.func("zf",function(x) { %s; return 1; }); D.query("select zf(1)")', 'var i=new Interp(); i.alias("aa",function() { %s; },null); i.eval("aa()")', 'var i=new Interp(); i.eval("var j=new Interp({lockDown:\'@/out\',confFile:\'@/b/c2.json\',safeReadDirs:[\'@/out\']}); j.eval("+JSON.stringify(%S)+")")',
        'try { %s; } catch(e) { puts(e); } finally { %s; }', 'eval(%S)', 'var o={toString:function() { %s; return "x"; }}; [o,o].sort(function(a,b) { %s; return 0; })']
WA = [('puts(File.read(%P))', '@/out/secret.txt'), ('puts(File.read(%P))', '@/b/lnk'), ('source(%P)', '@/out/sc.jsi'), ('File.write(%P,"EVIL")', '@/out/new'), ('File.write(%P,"EVIL")', '@/b/dang'), ('File.write(%P,"EVIL")', '@/b/dl/new'), ('File.remove(%P)', '@/out/secret.txt'), ('puts(exec("cat "+%P))', '@/out/secret.txt'), ('load(%P)', '@/b/mx.so'), ('new Sqlite(%P)', '@/out/new'), ('var D=new Sqlite(); D.query("ATTACH \'"+%P+"\' AS z; create table z.q(a)")', '@/out/new'),
      ('puts(File.glob(%P).join())', '@/out/*'), ('File.chdir(%P); puts(File.read("secret.txt"))', '@/out'), ('var c=new Channel(%P,"w"); c.write("E"); c.close()', '@/out/secret.txt'), ('File.rename("@/b/f.txt",%P,true)', '@/out/secret.txt'), ('new Interp({scriptFile:%P})', '@/out/sc.jsi'), ('puts(Util.hash("",{file:%P}))', '@/out/secret.txt'), ('File.mkdir(%P)', '@/out/nd'), ('File.tempfile(%P)', '@/out/tXXXXXX'), ('import(%P)', '@/out/sc.jsi'), ('Interp.source(%P)', '@/out/sc.jsi')]

# what must go on working: (configs, program, result or callable)
OK = [(('R', 'R/', 'RW', 'RWx', 'mread', 'mlock'), 'File.read("@/r/f.txt")', 'TOKr'), (('R', 'R/', 'RW'), 'File.read("@/r/d/g.txt")', 'TOKr'), (('R', 'RW'), 'File.read("@/r/d/../f.txt")', 'TOKr'), (('RW', 'RWx', 'mread', 'mlock', 'lock', 'file'), 'File.read("@/b/f.txt")', 'TOKb'), (('file',), 'File.read("@/r/f.txt")', 'TOKr'),
      (('RW', 'RWx', 'mread', 'file'), 'File.write("@/b/f.txt","hello"); File.read("@/b/f.txt")', 'hello'), (('mlock', 'lock'), 'var c=new Channel("@/b/f.txt","w"); c.write("hello"); c.close(); File.read("@/b/f.txt")', 'hello'), (('RW', 'RWx', 'mread'), 'File.write("@/b/n","hello"); File.read("@/b/n")', 'hello'), (('RW', 'RWx'), 'File.mkdir("@/b/n"); File.write("@/b/n/q","hello"); File.read("@/b/n/q")', 'hello'), (('RW',), 'File.mkdir("@/b/n/m",true); File.write("@/b/n/m/q","hi"); File.read("@/b/n/m/q")', 'hi'),
      (('RW', 'RWx', 'mread'), 'File.copy("@/b/f.txt","@/b/c"); File.rename("@/b/c","@/b/e"); var s=File.read("@/b/e"); File.remove("@/b/e"); s+File.exists("@/b/e")', 'TOKbfalse'), (('RW',), 'File.link("@/b/f.txt","@/b/k"); var s=File.read("@/b/k"); File.remove("@/b/k"); s+File.exists("@/b/f.txt")', 'TOKbtrue'),
      (('RW', 'RWx', 'mread'), 'var D=new Sqlite("@/b/i.db"); JSON.stringify(D.query("select * from t"))', '[ { "x":"dbofb" } ]'), (('RW',), 'var D=new Sqlite("@/b/n.db"); D.eval("create table t(x);insert into t values(5);"); D.backup("@/b/n2.db"); var E=new Sqlite(); E.restore("@/b/n2.db"); E.query("ATTACH \'@/b/n.db\' AS z"); JSON.stringify(E.query("select a.x, q.x as y from main.t as a, z.t as q"))', '[ { "x":5, "y":5 } ]'),
      (('R', 'RW'), 'var D=new Sqlite("@/r/i.db",{readonly:true}); JSON.stringify(D.query("select * from t"))', '[ { "x":"dbofr" } ]'), (('safe', 'R', 'RW'), 'var D=new Sqlite(); D.eval("create table t(x);VACUUM;ATTACH \':memory:\' AS z; ATTACH \'\' as y; create table z.q(b)"); D.onecolumn("select count(*) from z.q")', '0'),
      (('R', 'RW', 'RWx', 'mread'), 'var x=7; source("@/r/s.jsi"); File.read("@/r/f.txt")', 'TOKr'), (('R', 'RW'), 'File.glob("*",{dir:"@/r"}).indexOf("f.txt")>=0', 'true'), (('R', 'RW'), 'File.glob("*.txt",{dir:"@/r",recurse:true,types:"f"}).sort().join(" ")', 'd/g.txt din/g.txt f.txt'), (('RW',), 'File.glob("b/d/*").sort().join(" ")', 'b/d/e b/d/g.txt'), (('R', 'RW'), 'File.chdir("@/r/d"); File.read("g.txt")', 'TOKr'), (('R', 'RW'), 'File.chdir("@/r"); File.glob("d/*").sort().join(" ")', 'd/e d/g.txt'),
      (('RWx',), 'exec("echo hi there")', 'hi there'), (('R', 'RW'), 'var i=new Interp(); i.eval("2+3")', '5'), (('safe', 'R', 'W', 'RW', 'mread', 'mlock', 'lock'), 'var i=new Interp({scriptStr:"var z=4;"}); i.eval("z*2")', '8'), (('RW',), 'var c=new Channel("@/b/f.txt","a"); c.write("+"); c.close(); File.read("@/b/f.txt")', 'TOKb+'), (('W',), 'File.write("@/w/f.txt","q"); File.exists("@/w/f.txt")', 'true'), (('RW', 'W'), 'File.write("@/w/new","q"); File.remove("@/w/new"); 4', '4'),
      (('RW',), 'File.truncate("@/b/f.txt",2); File.chmod("@/b/f.txt",384); File.read("@/b/f.txt")', 'TO'), (('RW',), 'Util.hash("",{file:"@/b/f.txt"}).length', '64'), (('RW',), 'File.read("@/b/in")', 'TOKb'), (('RW',), 'File.read("@/b/d/../f.txt")+File.read("@/b//d/./g.txt")', 'TOKbTOKb'), (('RW',), 'File.write("@/b/din/new","x"); File.read("@/b/d/new")', 'x')]

def inside(path, dirs): return any(path == d or path.startswith(d + '/') for d in dirs)

def zipped(text):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z: z.writestr('t', text)
    return b.getvalue()


class World:
    def __init__(self, exe, so, root, drop):
        self.exe, self.W, self.drop, self.base = exe, root, drop, None
        self.so = so
        p = root + '.db'
        d = sqlite3.connect(p); d.execute('create table t(x)'); d.execute("insert into t values('dbof#')"); d.commit(); d.close()
        self.db = open(p, 'rb').read(); os.unlink(p)
        self.tree()

    def put(self, p, b):
        p = self.W + '/' + p
        with open(p, 'wb') as f: f.write(b if isinstance(b, bytes) else b.encode())

    def tree(self):
        W = self.W
        if os.path.isdir(W):
            for r, ds, fs in os.walk(W): os.chmod(r, 0o755)
            shutil.rmtree(W)
        os.mkdir(W)
        for d in DIRS + ('out/sub',): os.mkdir(W + '/' + d)
        for d in ('r', 'w', 'b'):
            os.mkdir(W + '/%s/d' % d); os.mkdir(W + '/%s/d/e' % d); os.mkdir(W + '/%s/d/e/f' % d)
            self.put(d + '/f.txt', 'TOK' + d); self.put(d + '/d/g.txt', 'TOK' + d)
            self.put(d + '/s.jsi', 'puts("in"+"js");'); self.put(d + '/t.jsi', 'puts("TO"+"K%s");' % d); self.put(d + '/z.zip', zipped('TOK' + d)); self.put(d + '/i.db', self.db.replace(b'dbof#', b'dbof' + d.encode())); self.put(d + '/mx.so', self.so)
            for l, t in (('lnk', '../out/secret.txt'), ('dl', '../out'), ('dang', '../out/new'), ('dang2', '../out/nd/new'), ('lnk2', 'lnk'), ('ljs', '../out/sc.jsi'), ('ldb', '../out/s.db'), ('dsub', '../out/sub'), ('z', 'd/e/f'), ('dz', 'd/../../out'), ('in', 'f.txt'), ('din', 'd')):
                os.symlink(t, W + '/%s/%s' % (d, l))
            self.put(d + '/c.json', json.dumps({'isSafe': False}))
            self.put(d + '/c2.json', json.dumps({'safeReadDirs': [W + '/out'], 'safeWriteDirs': [W + '/out'], 'safeExecPattern': '.'}))
        for d in ('out', 'rx', 'wx', 'o'):
            self.put(d + '/secret.txt', 'TOKout'); self.put(d + '/s.db', self.db.replace(b'dbof#', b'dbofx')); self.put(d + '/mx.so', self.so)
            self.put(d + '/sc.jsi', 'puts("TOK"+"out"); provide("sc");'); self.put(d + '/c.json', json.dumps({'isSafe': False, 'udata': {'s': 'TOKout'}}))
        os.symlink('../b/f.txt', W + '/out/toin'); self.put('out/sub/TOKout', 'x'); self.put('out/sTOKout', 'x'); self.put('out/z.zip', zipped('TOKout')); self.put('out/v.vue', '<template>TOKout</template>')
        os.mkdir(W + '/home')
        if self.drop:
            os.lchown(W, NOBODY, NOBODY)
            for r, ds, fs in os.walk(W):
                for n in ds + fs: os.lchown(r + '/' + n, NOBODY, NOBODY)
        self.base = self.snap()

    def snap(self):
        s = {}
        st = [self.W]; n = len(self.W) + 1
        while st:
            d = st.pop()
            try: es = list(os.scandir(d))
            except OSError: s[d[n:]] = ('unreadable',); continue
            for e in es:
                k = e.path[n:]
                if k == 'main.jsi': continue
                x = e.stat(follow_symlinks=False)
                if e.is_symlink(): s[k] = ('l', os.readlink(e.path))
                elif e.is_dir(): s[k] = ('d', x.st_mode); st.append(e.path)
                elif stat.S_ISREG(x.st_mode):
                    try:
                        with open(e.path, 'rb') as f: s[k] = ('f', x.st_mode, x.st_nlink, f.read())
                    except OSError: s[k] = ('f', x.st_mode, x.st_nlink, None)
                else: s[k] = ('other', x.st_mode)
        return s

    def script(self, cf, code, child=True):
        fix = lambda s: s.replace('@', self.W)
        if re.search(r'var i=new Interp\(\{[^;]*\}\)$', code) or re.search(r'scriptStr:.*\}\)$', code): code += ';'  # a var needs its end
        # functions of the parent that the adversary knows by name
        esc = ' { if (INTR) { File.write("%s/out/new","EVIL"); } return 0; }\n' % self.W
        pro = 'var INTR=0;\nfunction PW(msg:string, isStderr:number)' + esc + 'function PMW(msg:string, type:string, file:string, line:number, col:number)' + esc + 'function PBW(interpName:string, opCnt:number)' + esc
        return pro + 'var i=new Interp(%s);\nINTR=1;\ntry { var r=i.eval(%s); INTR=0; puts("RES",typeof r==="string"?r:JSON.stringify(r)); } catch(e) { INTR=0; puts("ERR "+e); }\n' % (fix(CONF[cf][0]), json.dumps(fix(code)))

    def run(self, cf, code):
        """-> (message or None, output)"""
        W = self.W
        self.put('main.jsi', self.script(cf, code))
        env = {'PATH': '/usr/bin:/bin', 'HOME': W + '/home', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'MARK': W + '/out/MARK'}
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[]) if self.drop else {}
        p = subprocess.Popen([self.exe, W + '/main.jsi'], cwd=W, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, start_new_session=True, **kw)
        try: o, _ = p.communicate(timeout=20); rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); o, _ = p.communicate(); rc = None
        o = o.decode('latin1').replace(W, '@')
        s = self.snap()
        msg = self.check(cf, s, o, rc, code)
        if s != self.base: self.tree()
        return msg, o

    def check(self, cf, s, o, rc, code):
        _, R, Wr, ex, create = CONF[cf]
        if rc is None: return 'the program did not end'
        if rc not in (0, 1): return 'the interpreter ended with status %s: %s' % (rc, o[-200:])
        hashed = {hashlib.sha256(t).hexdigest(): d for t, d in ((b'TOKr', 'r/f.txt'), (b'TOKw', 'w/f.txt'), (b'TOKb', 'b/f.txt'), (b'TOKout', 'out/secret.txt')) if not inside(d, R)}
        for h, d in hashed.items():
            if h in o: return 'the hash of the unreadable file %s was printed' % d
        toks = [t for t, d in ((b'TOKr', 'r/f.txt'), (b'dbofr', 'r/i.db'), (b'TOKw', 'w/f.txt'), (b'dbofw', 'w/i.db'), (b'TOKb', 'b/f.txt'), (b'dbofb', 'b/i.db'), (b'TOKout', 'out/secret.txt'), (b'dbofx', 'out/s.db')) if not inside(d, R) and not (inside(d, Wr) and ('rename' in code or 'link' in code))]
        for k in sorted(set(s) | set(self.base)):
            a, b = self.base.get(k), s.get(k)
            if a == b: continue
            if not inside(k, Wr):
                # an inside file that is a hard link, or moved away: not outside content
                return 'the file %s, outside of the writable directories, was %s' % (k, 'created' if a is None else 'removed' if b is None else 'changed')
            if b and a is None and not create and b[0] == 'f' and not k.endswith('-journal'): return 'the file %s was created in lockdown' % k
            if b and b[0] == 'f' and b[3]:
                for t in toks:
                    if t in b[3] and not (a and a[0] == 'f' and a[3] and t in a[3]) and not (inside(('w/f.txt' if t[-1:] == b'w' else 'b/f.txt' if t[-1:] == b'b' else 'r/f.txt'), Wr)): return 'data of unreadable files (%s) was copied into %s' % (t.decode(), k)
        for t in toks:
            if t.decode() in o: return 'data of unreadable files (%s) was printed: %s' % (t.decode(), o[max(0, o.index(t.decode()) - 40):][:90])
        if 'LOADED' in o: return 'a shared library was loaded'
        return None


_w = None
def _init(exe, so, root, drop, n):
    global _w
    with n.get_lock():
        k = n.value; n.value += 1
    _w = World(exe, so, '%s/k%d' % (root, k), drop)
def _job(ts):
    out = []
    for t in ts:
        try: msg, o = _w.run(t[0], t[1])
        except Exception as e: out.append((t, 'HARNESS %r' % e, '')); continue
        if msg is None and t[2] is not None:
            got = [l[4:] for l in o.splitlines() if l.startswith('RES ')]
            if got != [t[2]]: msg = 'an allowed operation failed: expected %r, got %s' % (t[2], o[-300:])
        out.append((t, msg, o))
    return out


def sub(a, p): return a.replace('%P', json.dumps(p))
def wrap(w, s): return w.replace('%S', json.dumps(s)).replace('%s', s)

def programs(thorough):
    for cfs, code, exp in OK:
        for cf in cfs: yield cf, code, exp
    confs = list(CONF)
    for fam, acts, ps in FAMS:
        for a in acts:
            for p in (ps if '%P' in a else ['']):
                for k, cf in enumerate(confs): yield cf, sub(a, p), None
    for cf in (('RW', 'mread', 'RWx', 'mlock', 'lock', 'file') if thorough else ('RW', 'lock')):
        for pre in PRE:
            for acts, ps in ((HA, HP), (HC, HN)):
                for a in acts:
                    for p in ps: yield cf, pre + sub(a, p), None
    for cf in confs if thorough else ('safe', 'R', 'RW', 'lock'):
        for w in WRAP:
            for a, p in WA: yield cf, wrap(w, sub(a, p)), None
    if thorough:
        for cf in ('RW', 'mread'):
            for p1, p2 in itertools.permutations(PRE, 2):
                for acts, ps in ((HA, HP), (HC, HN)):
                    for a in acts:
                        for p in ps:
                            if 'b/h' in p or not p.startswith('@'): yield cf, p1 + 'try { ' + p2 + '} catch(e) { } ' + sub(a, p), None
        for w in WRAP[1:]:
            for w2 in WRAP[1:]:
                for a, p in WA: yield 'RW', wrap(w, wrap(w2, sub(a, p))), None


def main():
    c = Ctx('R04')
    exe0 = c.build() + '/jsish'
    root = c.shm()
    os.chmod(root, 0o755)
    exe = root + '/jsish'
    shutil.copy(os.path.realpath(exe0), exe); os.chmod(exe, 0o755)
    src = root + '/m.c'
    open(src, 'w').write('#include <stdio.h>\n#include <stdlib.h>\n__attribute__((constructor)) static void x(void){ const char*p=getenv("MARK"); FILE*f=fopen(p?p:"/dev/null","w"); fputs("LOADED\\n",stdout); if(f){fputs("LOADED",f);fclose(f);} }\nint Jsi_Initmx(void*i,int r){return 0;}\n')
    subprocess.check_call(['gcc', '-shared', '-fPIC', '-o', root + '/mx.so', src])
    so = open(root + '/mx.so', 'rb').read()
    drop = c.drop
    ts = list(dict.fromkeys(programs(c.thorough)))
    if not c.thorough:
        keep = []
        for n, t in enumerate(ts):
            # every action and path in RW and lock; the other configurations in turn
            if t[2] is not None or t[0] == "RW" or (n % len(CONF) + n // len(CONF)) % 4 == 0 or (t[0] == "RWx" and "exec(" in t[1]): keep.append(t)
        ts = keep
    mp = get_context('fork')
    n = mp.Value('i', 0)
    chunks = [ts[i:i + 40] for i in range(0, len(ts), 40)]
    outs = set(); bad = []
    with mp.Pool(NCPU, _init, (exe, so, root, drop, n)) as pool:
        done = 0
        for res in pool.imap_unordered(_job, chunks):
            for t, msg, o in res:
                done += 1
                c.outcomes.add((t[0], o[:60]))
                if msg: bad.append((t, msg, o))
            if len(bad) > 40: break
        pool.terminate()
    c.cov['states'] = len(ts); c.cov['transitions'] = done
    c.cov['traces_validated_against_impl'] = done
    c.cov['distinct_programs'] = len({t[1] for t in ts})
    c.cov['configurations'] = len(CONF)
    c.cov['samples'] = ['%s: %s' % (t[0], t[1][:100]) for t in ts[::max(1, len(ts) // 10)]]
    _init(exe, so, root, drop, n)
    for t, msg, o in bad:
        if c.stop: break
        m2, o2 = _job([t])[0][1:]
        if not m2: c.flaky += 1; continue
        text = '// Programs run as the files of a scratch tree; see World.tree() of checks/R04.py. @ is the root of the tree.\n' + _w.script(t[0], t[1]).replace(_w.W, '@')
        c.report(Case('%s | %s' % (t[0], t[1]), text, ''), o2, 'configuration %s (%s): %s' % (t[0], CONF[t[0]][0], m2), text)
    c.cov['exhaustive'] = True
    c.assumptions += ['Each program runs once, by itself: two safe interpreters racing over the same path (time of check to time of use) are not explored.',
        'Metadata (exists, stat, size, times, real path) of files outside is not part of the property; contents, names in directory listings, and modifications are.',
        'A file that a program may write may be moved, or linked, to where the program may read.',
        'Network, signals and resource limits of safe interpreters are not part of it either.']
    c.finish()


if __name__ == '__main__':
    main()
