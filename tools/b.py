import sys; sys.path.insert(0,'/verif/tools')
import build; build.build(sys.argv[1:])
