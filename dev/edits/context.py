import sys; sys.path.insert(0,'/tmp')
from ed import case
src=open('/repo/AMAT/vehicle.py',newline='').read().replace('\r\n','\n')
i=src.index('\tdef findOverShootLimit(self'); j=src.index('\tdef findOverShootLimit2(')
fn=src[i:j]
b0=fn.index('\t\tdelta_deg = 180.0')
head,body=fn[:b0],fn[b0:]
body2=body.replace('\t\ttemp_var = self.gamma0_deg\n','').replace('\t\tself.gamma0_deg = temp_var\n','')
def ind(b): return ''.join('\t'+l if l.strip() else l for l in b.splitlines(True))
P=['*findOverShootLimit']
# 1 try/finally
new=head+'\t\ttemp_var = self.gamma0_deg\n\t\ttry:\n'+ind(body2)+'\t\tfinally:\n\t\t\tself.gamma0_deg = temp_var\n\n'
which=sys.argv[1:]
def c(name,edits,want='ok'):
    if which and name not in which: return
    case(name,'vehicle.py',edits,P and ['findOverShootLimit'],want)
c('tryfinally',[(fn,new)])
# 2 class-based context manager
cls='''
class _Restore:
	def __init__(self, obj, name):
		self.obj = obj
		self.name = name

	def __enter__(self):
		self.saved = getattr(self.obj, self.name)
		return self

	def __exit__(self, *exc):
		setattr(self.obj, self.name, self.saved)
		return False


class Vehicle:
'''
new=head+'\t\twith _Restore(self, "gamma0_deg"):\n'+ind(body2)+'\n'
c('classcm',[('\nclass Vehicle:\n',cls),(fn,new)])
cls='''
from contextlib import contextmanager
@contextmanager
def _keep(obj, name):
	saved = getattr(obj, name)
	try:
		yield obj
	finally:
		setattr(obj, name, saved)


class Vehicle:
'''
new=head+'\t\twith _keep(self, "gamma0_deg"):\n'+ind(body2)+'\n'
c('gencm',[('\nclass Vehicle:\n',cls),(fn,new)])
cls2=cls.replace('setattr(obj, name, saved)','pass')
c('gencm-bad',[('\nclass Vehicle:\n',cls2),(fn,new)],'violation')
cls='''
import functools
def _keeps_gamma0(f):
	@functools.wraps(f)
	def wrapper(self, *args, **kwargs):
		saved = self.gamma0_deg
		try:
			return f(self, *args, **kwargs)
		finally:
			self.gamma0_deg = saved
	return wrapper


class Vehicle:
'''
new='\t@_keeps_gamma0\n'+head+body2
c('deco',[('\nclass Vehicle:\n',cls),(fn,new)])
c('deco-bad',[('\nclass Vehicle:\n',cls.replace('self.gamma0_deg = saved','self.gamma0_deg = saved + 0.0*saved + 1e-9')),(fn,new)],'violation')
cls='''
import functools
def _keeps(name):
	def deco(f):
		@functools.wraps(f)
		def wrapper(self, *args, **kwargs):
			saved = getattr(self, name)
			out = f(self, *args, **kwargs)
			setattr(self, name, saved)
			return out
		return wrapper
	return deco


class Vehicle:
'''
new='\t@_keeps("gamma0_deg")\n'+head+body2
c('decofactory',[('\nclass Vehicle:\n',cls),(fn,new)])
