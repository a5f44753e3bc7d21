import sys, traceback, time, os, shutil
from zdemo import *
import zielen.filelogic, zielen.fstools
def d_trashname():
    w=World(); w.write("local/x/f.txt","one"); w.write("local/y/f.txt","two"); w.init(); 
    w.sync()
    # make both symlinks (non-local): reset limit tiny
    w.edit_cfg("a","StorageLimit=1GiB","StorageLimit=1K")
    w.sync(); w.sync()
    assert os.path.islink(w.p("local/x/f.txt"))
    os.remove(w.p("local/x/f.txt")); os.remove(w.p("local/y/f.txt")); w.sync()
    t=os.listdir(w.p("remote/.zielen/Trash")); assert len(t)==2,t
def d_units():
    for u in ("10gb","10kib","10GIB","10 mb"):
        w=World(); w.write("local/f","x"); w.init(limit=u); w.sync()
def d_bool():
    w=World(); w.write("local/f","x"); w.init(UseTrash="Yes"); c=SyncCommand(w.name("a")); c.profile.read(); assert c.profile.use_trash is True
def d_boolblank():
    w=World(); w.write("local/f","x"); w.init(UseTrash=""); c=SyncCommand(w.name("a")); c.profile.read(); assert c.profile.use_trash is True, c.profile.use_trash
def d_selpath():
    w=World(); w.write("local/f","x"); w.init(); c=SyncCommand(w.p("local")); assert c.profile.name==w.name("a")
def d_dangling_trash():
    w=World(); w.write("local/f","x"); os.symlink("nothing",w.p("local/l")); w.init(); w.sync(); 
    os.symlink("gone", w.p("remote/.zielen/Trash/q")); w.sync()
def d_symdir_trash():
    w=World(); w.write("local/f","x"); w.init(); w.sync(); 
    os.mkdir(w.p("d")); os.symlink(w.p("d"), w.p("remote/.zielen/Trash/q")); os.utime(w.p("d"),(1,1)); os.utime(w.p("remote/.zielen/Trash/q"),(1,1),follow_symlinks=False); w.sync(); assert not os.path.lexists(w.p("remote/.zielen/Trash/q"))
def d_emptydir():
    w=World(); w.write("local/f","x"); w.init(); w.sync(); os.mkdir(w.p("local/newdir")); w.sync(); assert os.path.isdir(w.p("remote/newdir")),"not on remote"; w.sync(); assert os.path.isdir(w.p("local/newdir"))
def d_nested_excl():
    w=World(); w.write("local/f","x"); w.init(exclude=["secret"]); w.sync(); w.write("local/new/secret","s"); w.write("local/new/ok","s"); w.sync(); assert os.path.exists(w.p("remote/new/ok")); assert not os.path.exists(w.p("remote/new/secret"))
def d_nested_unsafe():
    w=World(); w.write("local/f","x"); w.init(); w.sync(); w.write("local/new/ok","s"); os.symlink("/etc/passwd",w.p("local/new/l")); w.sync(); assert os.path.exists(w.p("remote/new/ok")); assert not os.path.lexists(w.p("remote/new/l"))
def d_write_through():
    w=World(); w.write("local/b","bbb"); os.symlink("b",w.p("local/a")); w.init(); w.sync(); 
    os.remove(w.p("local/a")); w.write("local/a","new a"); later(); os.utime(w.p("local/a")); w.sync(); assert w.read("remote/b")=="bbb", w.read("remote/b"); assert w.read("remote/a")=="new a"
def d_inflate_empty():
    w=World(); w.init(); w.write("local/f","x"); w.sync()
def d_interrupted_reset():
    w=World(); w.write("local/f","x"); w.write("local/g/h","x"); w.init(limit="1K"); w.sync()
    import zielen.fstools as ft
    real=os.remove; 
    orig=shutil.copy2; n=[0]
    def boom(*a,**k):
        n[0]+=1
        if n[0]==2: raise KeyboardInterrupt
        return orig(*a,**k)
    shutil.copy2=boom
    try: w.reset()
    except KeyboardInterrupt: pass
    shutil.copy2=orig
    w.reset()
def d_moddel_local():
    w=World(); w.write("local/f","x"); w.write("local/k","x"); w.init(); w.sync(); later(); w.write("local/f","changed"); os.remove(w.p("remote/f")); w.sync(); assert w.read("local/f")=="changed"; assert w.read("remote/f")=="changed"
def d_moddel_remote():
    w=World(); w.write("local/f","x"); w.write("local/k","x"); w.init(); w.sync(); later(); w.write("remote/f","changed"); os.remove(w.p("local/f")); w.sync(); assert w.read("remote/f")=="changed"; assert w.read("local/f")=="changed"
def d_cleanup0():
    w=World(); w.write("local/f","x"); w.init(TrashCleanupPeriod="0"); w.sync(); w.write("remote/.zielen/Trash/q"); w.sync(); assert not os.path.exists(w.p("remote/.zielen/Trash/q"))
def d_localflag():
    w=World(); w.write("local/f","x"); w.init(); c=w.sync(); assert not os.path.islink(w.p("local/f")); 
    c=SyncCommand(w.name("a")); assert c.profile.get_path_info("f").local, c.profile.get_path_info("f")
def d_excl2():
    w=World(); w.write("local/f","x"); w.write("local/g","x"); w.init("a"); w.init("b",local="lb",add_remote=True); w.sync("a"); w.sync("b")
    w.set_exclude("a",["f"]); w.set_exclude("b",["f"]); w.sync("a"); w.sync("b"); w.sync("a"); w.sync("b"); w.sync("a"); assert os.path.exists(w.p("local/f")); assert os.path.exists(w.p("lb/f"))
def d_emptymount():
    w=World(); w.write("local/f","x"); w.init(); w.sync()
    os.rename(w.p("remote"),w.p("away")); os.mkdir(w.p("remote"))
    from zielen.exceptions import RemoteError
    for fn in (w.sync,w.reset):
        try: fn()
        except RemoteError: pass
        else: raise AssertionError("no error")
    from zielen.commands.emptytrash import EmptyTrashCommand
    try: EmptyTrashCommand(w.name("a")).main()
    except RemoteError: pass
def d_vanish_mid():
    w=World(); w.write("local/f","x"); w.init(); w.sync()
    import zielen.userdata as u
    from zielen.exceptions import RemoteError
    orig=u.RemoteSyncDir.add_exclude_file
    def gone(self,*a):
        orig(self,*a); os.rename(w.p("remote"),w.p("away")); os.mkdir(w.p("remote"))
    u.RemoteSyncDir.add_exclude_file=gone
    try: w.sync()
    except RemoteError: pass
    finally: u.RemoteSyncDir.add_exclude_file=orig
    assert os.path.exists(w.p("local/f"))
def d_vanish_upload():
    w=World(); w.write("local/f","x"); w.init(); w.sync(); w.write("local/n","new")
    import zielen.filelogic as u
    from zielen.exceptions import RemoteError
    orig=u.FilesManager.update_remote
    def gone(self,*a):
        os.rename(w.p("remote"),w.p("away")); os.mkdir(w.p("remote"))
        orig(self,*a); 
    u.FilesManager.update_remote=gone
    try: w.sync()
    except RemoteError: pass
    finally: u.FilesManager.update_remote=orig
    assert os.listdir(w.p("remote"))==[], os.listdir(w.p("remote"))
def d_rename_gen():
    w=World(); w.write("local/f","x"); w.init(); w.sync(); later(); w.write("remote/f","r"); later(); w.write("local/f","l"); c=w.sync()
    c=SyncCommand(w.name("a"));c.setup_profile(); print(c.remote_dir.get_paths().keys(), c.profile.get_paths().keys()); c.lock_socket.close()
    assert c.remote_dir.get_paths().keys()==c.profile.get_paths().keys()
def d_rmtree_new():
    w=World(); w.write("local/d/f","x"); w.write("local/k","x"); w.init(); w.sync(); shutil.rmtree(w.p("remote/d")); w.write("local/d/new","precious"); w.sync(); assert os.path.exists(w.p("local/d/new"))
def d_partial_dl():
    w=World(); w.write("local/k","x"); w.init("a"); w.sync(); w.write("remote/big","B"*100000, mtime=time.time()-1000)
    import shutil as s
    orig=s.copystat
    def boom(*a,**k): raise KeyboardInterrupt
    # interrupted in copy2 after partial write
    oc=s.copyfile
    def part(src,dst,**k):
        if src.endswith("big"):
            if os.path.islink(dst): raise s.SameFileError
            exec("with open(dst,'w') as q: q.write('BBB')"); raise KeyboardInterrupt
        return oc(src,dst,**k)
    s.copyfile=part
    try: w.sync()
    except KeyboardInterrupt: pass
    s.copyfile=oc
    w.sync(); assert len(w.read("remote/big"))==100000
def d_halflife0():
    w=World(); w.write("local/f","x"); 
    try: w.init(PriorityHalfLife="0")
    except Exception as e:
        from zielen.exceptions import ProgramError
        assert isinstance(e,ProgramError); return
    c=SyncCommand(w.name("a")); c.profile.read(); 1/c.profile.priority_half_life
def d_jsonatomic():
    w=World(); w.write("local/f","x"); w.init(); c=SyncCommand(w.name("a")); c.profile.read()
    import json
    od=json.dump
    def boom(*a,**k): raise KeyboardInterrupt
    json.dump=boom
    try: c.profile._info_file.write()
    except KeyboardInterrupt: pass
    json.dump=od
    c.profile.read()
def d_cfgremove():
    w=World(); w.write("local/f","x"); w.init(UseTrash="no"); c=SyncCommand(w.name("a")); c.profile.read(); assert c.profile.use_trash is False
    w.edit_cfg("a","UseTrash=no","#UseTrash=no"); c.profile.read(); assert c.profile.use_trash is True
def d_symdir():
    w=World(); w.write("local/d/f","x"); w.init(); w.sync(); os.symlink("d",w.p("local/link")); w.sync(); assert os.path.islink(w.p("remote/link")); assert os.path.islink(w.p("local/link"))
def d_localflag2():
    w=World(); w.write("local/k","x"); w.init(); w.sync(); w.write("remote/f","x"); w.sync(); assert not os.path.islink(w.p("local/f")); c=SyncCommand(w.name("a")); assert c.profile.get_path_info("f").local, c.profile.get_path_info("f")
def d_excl_overwrite():
    w=World(); w.write("local/f","x"); w.init(exclude=["secret"]); w.sync()
    w.init("b","localb","remote",add_remote=True); w.sync("b")
    w.write("local/secret","mine"); w.sync()
    w.write("localb/secret","theirs"); w.sync("b")
    w.sync(); assert w.read("local/secret")=="mine", w.read("local/secret")
    later(); w.write("local/secret","mine2"); w.sync(); assert w.read("remote/secret")=="theirs"
    w.sync(); w.sync("b"); assert w.read("local/secret")=="mine2"; assert w.read("localb/secret")=="theirs"
    w.set_exclude("a",[]); w.sync(); w.sync()
    l=sorted(os.listdir(w.p("local"))); c=[w.read("local/"+n) for n in l if n.startswith("secret")]; assert sorted(c)==["mine2","theirs"],c
def d_tty():
    w=World(); w.write("local/k","x"); w.init(); w.sync(); os.symlink("gone",w.p("local/l"))
    import sys
    sys.stdout.isatty_=1
    class T(io.StringIO):
        def isatty(self): return True
    c=SyncCommand(w.name("a"))
    with contextlib.redirect_stdout(T()): c.main()
def d_partial_crash():
    # interruption between removal of local symlink and copy
    w=World(); w.write("local/k","x"); w.write("local/f","x"); w.init()
    import shutil as s
    oc=s.copy2
    n=[0]
    def boom(a,b,**k):
        n[0]+=1
        if n[0]>1 : raise KeyboardInterrupt
        return oc(a,b,**k)
    s.copy2=boom
    try: w.sync()
    except KeyboardInterrupt: pass
    s.copy2=oc
    assert os.path.lexists(w.p("local/k")) and os.path.lexists(w.p("local/f"))
    w.sync(); assert os.path.exists(w.p("remote/k")) and os.path.exists(w.p("remote/f"))
def d_updated_then_gone():
    w=World(); w.write("local/f","x"); w.write("local/g","x"); w.init(); w.sync()
    w.init("b",local="local2",add_remote=True); w.sync("b")
    later(); w.write("local2/f" if not os.path.islink(w.p("local2/f")) else "remote/f","yy"); w.write("remote/f","yy")
    os.path.islink(w.p("local2/f")) and os.remove(w.p("local2/f")); w.write("local2/f","yyy"); w.sync("b")
    os.remove(w.p("remote/f")); w.sync("a"); w.sync("a"); assert not os.path.lexists(w.p("local/f"))
def d_excl_dir_overwrite():
    w=World(); w.write("local/f","x"); w.write("local/d/g","x"); w.init(exclude=["d/secret"]); w.sync(); w.sync()
    w.init("b","localb","remote",add_remote=True); w.sync("b")
    w.write("local/d/secret","mine"); w.sync()
    w.write("localb/d/secret","theirs"); w.sync("b")
    w.sync(); w.sync(); assert w.read("local/d/secret")=="mine", w.read("local/d/secret")
    later(); w.write("local/d/secret","mine2"); w.sync(); assert w.read("remote/d/secret")=="theirs"
    w.sync(); w.sync("b"); assert w.read("local/d/secret")=="mine2"; assert w.read("localb/d/secret")=="theirs"
def d_resume_add_remote():
    w=World(); w.write("local/f","x"); w.write("local/g","x"); w.init(); w.sync()
    import zielen.userdata as u
    o=u.RemoteSyncDir.add_exclude_file
    def boom(*a): raise KeyboardInterrupt
    pid=os.fork()
    if not pid:
        u.RemoteSyncDir.add_exclude_file=boom
        try: w.init("b","localb","remote",add_remote=True)
        finally: os._exit(0)
    os.waitpid(pid,0)
    os.remove(w.p("localb/f")); w.write("localb/f","precious", mtime=time.time()-1000)
    w.init("b","localb","remote",add_remote=True)
    w.edit_cfg("b","StorageLimit=1GiB","StorageLimit=1K"); w.sync("b"); w.sync("b")
    c=[w.read("remote/"+n) for n in os.listdir(w.p("remote")) if n.startswith("f")]; assert sorted(c)==["precious","x"],c
    assert os.path.lexists(w.p("localb/g"))
def d_conflict_evict():
    w=World(); w.write("local/f","x"); w.write("local/g","x"); w.init(limit="1K"); w.sync(); later()
    os.remove(w.p("local/f")); w.write("local/f","mine"); later(); w.write("remote/f","theirs"); w.sync(); w.sync()
    c=[w.read("local/"+n) for n in os.listdir(w.p("local")) if n.startswith("f")]; assert sorted(c)==["mine","theirs"],c
bad=0
for k,f in list(globals().items()):
    if k.startswith("d_") and (len(sys.argv)<2 or k[2:] in sys.argv[1:]):
        try: f(); print("ok  ",k)
        except BaseException as e:
            tb=traceback.extract_tb(e.__traceback__)[-1]
            print("FAIL",k,type(e).__name__,str(e)[:100],"@",tb.filename.split("/")[-1],tb.lineno)
            if len(sys.argv)>1: traceback.print_exc()
