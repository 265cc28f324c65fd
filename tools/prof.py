import cProfile,pstats,sys,runpy,io
sys.argv=["engine/dbg.py"]+sys.argv[1:]
pr=cProfile.Profile(); pr.enable()
try: runpy.run_path("/verif/engine/dbg.py",run_name="__main__")
finally:
    pr.disable(); pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
