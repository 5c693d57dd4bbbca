META={}
def run(pid,tier,out,only=None): return []
