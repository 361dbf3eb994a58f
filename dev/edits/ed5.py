import sys; sys.path.insert(0,'/tmp')
exec(open('/tmp/ed4.py').read().split('# vectorised lander')[0])
s=src('visibility.py')
L=s[s.index("		for longitude in self.longitude_array:\n			self.lander_pos_x_bi = self.planetObj.RP", s.index('class LanderToOrbiter')):]
L=L[:L.index("self.lander_pos_z_bi_arr = np.append(self.lander_pos_z_bi_arr, self.lander_pos_z_bi)\n")+len("self.lander_pos_z_bi_arr = np.append(self.lander_pos_z_bi_arr, self.lander_pos_z_bi)\n")]
pre='''		lat = latitude*np.pi/180
		positions = [(self.planetObj.RP*np.cos(lat)*np.cos(lo*np.pi/180), self.planetObj.RP*np.cos(lat)*np.sin(lo*np.pi/180), self.planetObj.RP*np.sin(lat)) for lo in self.longitude_array]
'''
post='''		self.lander_pos_x_bi, self.lander_pos_y_bi, self.lander_pos_z_bi = positions[-1]
'''
case('a','visibility.py',[(L,pre+'''		self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr = np.array(positions).T
'''+post)],['LanderToOrb'],'ok')
case('b','visibility.py',[(L,pre+'''		self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr = zip(*positions)
'''+post)],['LanderToOrb'],'ok')
case('c','visibility.py',[(L,pre+'''		P = np.array(positions)
		self.lander_pos_x_bi_arr = P[:, 0]
		self.lander_pos_y_bi_arr = P[:, 1]
		self.lander_pos_z_bi_arr = P[:, 2]
''')],['LanderToOrb'],'ok')
