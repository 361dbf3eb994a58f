import sys; sys.path.insert(0,'/tmp')
exec(open('/tmp/ed4.py').read().split('# vectorised lander')[0])
s=src('visibility.py'); i=s.index('\t\t\telev = max(0, 90 - beta)'); k=s.index('visible = False',i)+len('visible = False\n'); a=s[i:k]
P=['LanderTo']
case('if','visibility.py',[(a,'''			elev = 90 - beta
			if elev < 0:
				elev = 0
			visible = elev > 0
''')],P,'ok')
case('ifle','visibility.py',[(a,'''			elev = 90 - beta
			if elev <= 0:
				elev = 0
			visible = elev > 0
''')],P,'ok')
case('ternary','visibility.py',[(a,'''			visible = beta < 90
			elev = 90 - beta if visible else 0
''')],P,'ok')
case('bad-le','visibility.py',[(a,'''			visible = beta <= 90
			elev = 90 - beta if visible else 0
''')],P,'violation')
case('where','visibility.py',[(a,'''			elev = np.where(beta > 90, 0, 90 - beta)
			visible = elev > 0
''')],P,'ok')
case('abs','visibility.py',[(a,'''			elev = 0.5*((90 - beta) + abs(90 - beta))
			visible = 90 > beta
''')],P,'ok')

print(a)
