import sys; sys.path.insert(0,'/tmp')
import ed
which=sys.argv[1:]
def case(name,*a,**k):
    if which and name not in which: return
    ed.case(name,*a,**k)
def src(f): return open('/repo/AMAT/'+f,newline='').read().replace('\r\n','\n')
# vectorised lander
L='''		for longitude in self.longitude_array:
			self.lander_pos_x_bi = self.planetObj.RP*np.cos(latitude*np.pi/180)*np.cos(longitude*np.pi/180)
			self.lander_pos_y_bi = self.planetObj.RP*np.cos(latitude*np.pi/180)*np.sin(longitude*np.pi/180)
			self.lander_pos_z_bi = self.planetObj.RP*np.sin(latitude*np.pi/180)

			self.lander_pos_x_bi_arr = np.append(self.lander_pos_x_bi_arr, self.lander_pos_x_bi)
			self.lander_pos_y_bi_arr = np.append(self.lander_pos_y_bi_arr, self.lander_pos_y_bi)
			self.lander_pos_z_bi_arr = np.append(self.lander_pos_z_bi_arr, self.lander_pos_z_bi)
'''
s=src('visibility.py')
assert L in s
case('vis-comp','visibility.py',[(L,'''		lat = np.radians(latitude)
		xyz = []
		for longitude in self.longitude_array:
			lon = np.deg2rad(longitude)
			self.lander_pos_x_bi = self.planetObj.RP*np.cos(lat)*np.cos(lon)
			self.lander_pos_y_bi = self.planetObj.RP*np.cos(lat)*np.sin(lon)
			self.lander_pos_z_bi = self.planetObj.RP*np.sin(lat)
			xyz.append((self.lander_pos_x_bi, self.lander_pos_y_bi, self.lander_pos_z_bi))
		self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr = np.array(xyz).T
''')],['Visib','Lander'],'ok')
case('vis-zip','visibility.py',[(L,'''		xs, ys, zs = [], [], []
		for longitude in self.longitude_array:
			p = self._site(latitude, longitude)
			self.lander_pos_x_bi, self.lander_pos_y_bi, self.lander_pos_z_bi = p
			xs.append(p[0]); ys.append(p[1]); zs.append(p[2])
		self.lander_pos_x_bi_arr = np.array(xs)
		self.lander_pos_y_bi_arr = np.array(ys)
		self.lander_pos_z_bi_arr = np.array(zs)
'''),('''class LanderToOrbiter:
''','''class _Site:
	def _site(self, lat, lon):
		lat, lon = np.radians([lat, lon])
		R = self.planetObj.RP
		return R*np.cos(lat)*np.cos(lon), R*np.cos(lat)*np.sin(lon), R*np.sin(lat)


class LanderToOrbiter(_Site):
''')],['Visib','Lander'],'ok')
a=s.index("			lander_orb_vec = orb_vec - lander_vec"); b=s.index("			self.range_array = np.append(self.range_array, range)")
case('vis-sqrtdot','visibility.py',[(s[a:b],'''			lander_orb_vec = np.subtract(orb_vec, lander_vec)
			range = np.sqrt(np.dot(lander_orb_vec, lander_orb_vec))
			beta = np.degrees(np.arccos(np.sum(lander_unit*lander_orb_vec)/range))
			elev = np.maximum(0, 90 - beta)
			visible = bool(elev > 0)
''')],['Visib','Lander'],'ok')
case('vis-clip','visibility.py',[(s[a:b],'''			lander_orb_vec = orb_vec - lander_vec
			range = sum(c**2 for c in lander_orb_vec)**0.5
			beta = np.arccos(lander_unit @ (lander_orb_vec/range))*180/np.pi
			elev = np.clip(90 - beta, 0, None)
			visible = True if elev > 0 else False
''')],['Visib','Lander'],'ok')
# approach: einsum / @ / np.outer ...
case('app-at','approach.py',[('np.matmul(self.R1(np.pi/2 - self.d0), self.R3(np.pi/2 + self.a0))','self.R1(np.pi/2 - self.d0) @ self.R3(np.pi/2 + self.a0)'),('return np.matmul(R1R3, X_ICRF.T).T','return R1R3.dot(X_ICRF)')],['approach'],'ok')
case('app-quad','approach.py',[('''		if self.N_vec_bi_unit[1] >= 0:
			self.OMEGA = np.arccos(self.N_vec_bi_unit[0])
		else:
			self.OMEGA = 2*np.pi - np.arccos(self.N_vec_bi_unit[0])
''','''		self.OMEGA = self._quadrant(self.N_vec_bi_unit[0], self.N_vec_bi_unit[1])
'''),('''		if self.e_vec_bi_unit[2] >= 0:
			self.omega = np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
		else:
			self.omega = 2*np.pi - np.arccos(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit))
''','''		self.omega = self._quadrant(np.dot(self.N_vec_bi_unit, self.e_vec_bi_unit), self.e_vec_bi_unit[2])
'''),('''	def R1(self, theta):
''','''	@staticmethod
	def _quadrant(c, s):
		angle = np.arccos(c)
		return angle if s >= 0 else 2*np.pi - angle

	def R1(self, theta):
''')],['approach'],'ok')
case('app-unit','approach.py',[('''		self.T_vec_bi_unit = self.T_vec_bi / LA.norm(self.T_vec_bi)
''','''		self.T_vec_bi_unit = self.T_vec_bi / np.sqrt(np.sum(self.T_vec_bi**2))
'''),('''		self.R_vec_bi_unit = self.R_vec_bi / LA.norm(self.R_vec_bi)
''','''		self.R_vec_bi_unit = self.R_vec_bi / np.sqrt(np.einsum('i,i->', self.R_vec_bi, self.R_vec_bi))
'''),('''		self.B_vec_bi_unit = self.B_vec_bi / LA.norm(self.B_vec_bi)
''','''		self.B_vec_bi_unit = self.B_vec_bi / np.sqrt(self.B_vec_bi @ self.B_vec_bi)
''')],['approach'],'ok')
case('app-local','approach.py',[('''		vx = vr*( np.cos(theta)*np.cos(self.OMEGA) - np.sin(theta)*np.cos(self.i)*np.sin(self.OMEGA)) +\\
		     vt*(-np.sin(theta)*np.cos(self.OMEGA) - np.cos(theta)*np.cos(self.i)*np.sin(self.OMEGA))

		vy = vr*( np.cos(theta)*np.sin(self.OMEGA) + np.sin(theta)*np.cos(self.i)*np.cos(self.OMEGA)) +\\
		     vt*( np.cos(theta)*np.cos(self.i)*np.cos(self.OMEGA) - np.sin(theta)*np.sin(self.OMEGA))

		vz = vr*np.sin(theta)*np.sin(self.i) + vt*np.cos(theta)*np.sin(self.i)

		vel_vec_bi = np.array([vx, vy, vz])
''','''		ct, st = np.cos(theta), np.sin(theta)
		cO, sO = np.cos(self.OMEGA), np.sin(self.OMEGA)
		ci, si = np.cos(self.i), np.sin(self.i)
		rhat = np.array([ct*cO - st*ci*sO, ct*sO + st*ci*cO, st*si])
		that = np.array([-st*cO - ct*ci*sO, ct*ci*cO - st*sO, ct*si])
		vel_vec_bi = vr*rhat + vt*that
''')],['approach'],'ok')
case('app-mat','approach.py',[('''		vx = vr*( np.cos(theta)*np.cos(self.OMEGA) - np.sin(theta)*np.cos(self.i)*np.sin(self.OMEGA)) +\\
		     vt*(-np.sin(theta)*np.cos(self.OMEGA) - np.cos(theta)*np.cos(self.i)*np.sin(self.OMEGA))

		vy = vr*( np.cos(theta)*np.sin(self.OMEGA) + np.sin(theta)*np.cos(self.i)*np.cos(self.OMEGA)) +\\
		     vt*( np.cos(theta)*np.cos(self.i)*np.cos(self.OMEGA) - np.sin(theta)*np.sin(self.OMEGA))

		vz = vr*np.sin(theta)*np.sin(self.i) + vt*np.cos(theta)*np.sin(self.i)

		vel_vec_bi = np.array([vx, vy, vz])
''','''		vel_vec_bi = (self.R3(theta) @ self.R1(self.i) @ self.R3(self.OMEGA)).T @ np.array([vr, vt, 0.0])
''')],['approach'],'ok')
case('app-setattr','approach.py',[('''		self.T_vec_bi = np.cross(self.S_vec_bi, self.N_ref_bi)
		self.T_vec_bi_unit = self.T_vec_bi / LA.norm(self.T_vec_bi)
''','''		for name, vec in (('T_vec_bi', np.cross(self.S_vec_bi, self.N_ref_bi)),):
			setattr(self, name, vec)
			setattr(self, f'{name}_unit', vec / LA.norm(vec))
''')],['approach'],'ok')
b2=s.index("		for i in np.arange(0, num_points):\n\t\t\tlander_vec"); e2=s.index("			self.visible_array = np.append(self.visible_array, visible)",b2)+len("			self.visible_array = np.append(self.visible_array, visible)\n")
body=s[b2:e2]
case('vis-vec','visibility.py',[(body,'''		lander = np.column_stack((self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr))
		orb = np.column_stack((self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr))
		lander_unit = lander / np.linalg.norm(lander, axis=1)[:, None]
		los = orb - lander
		self.range_array = np.linalg.norm(los, axis=1)
		los_unit = los / self.range_array[:, np.newaxis]
		self.beta_array = np.arccos(np.sum(lander_unit*los_unit, axis=1))*180/np.pi
		self.elevation_array = np.maximum(0, 90 - self.beta_array)
		self.visible_array = self.elevation_array > 0
''')],['Visib','Lander'],'ok')
case('vis-vec-bad','visibility.py',[(body,'''		lander = np.column_stack((self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr))
		orb = np.column_stack((self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr))
		lander_unit = lander / np.linalg.norm(lander, axis=1)[:, None]
		los = orb - lander
		self.range_array = np.linalg.norm(los, axis=1)
		los_unit = los / self.range_array[:, np.newaxis]
		self.beta_array = np.arccos(np.sum(lander_unit*orb, axis=1))*180/np.pi
		self.elevation_array = np.maximum(0, 90 - self.beta_array)
		self.visible_array = self.elevation_array > 0
''')],['Visib','Lander'],'violation')
case('vis-ein','visibility.py',[(body,'''		lander = np.array([self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr])
		orb = np.stack([self.orbiter_pos_x_bi_arr, self.orbiter_pos_y_bi_arr, self.orbiter_pos_z_bi_arr])
		lander_unit = lander / np.linalg.norm(lander, axis=0)
		los = orb - lander
		self.range_array = np.linalg.norm(los, axis=0)
		self.beta_array = np.degrees(np.arccos(np.einsum('ij,ij->j', lander_unit, los / self.range_array)))
		self.elevation_array = np.clip(90 - self.beta_array, 0, None)
		self.visible_array = self.elevation_array > 0
''')],['Visib','Lander'],'ok')
case('vis-zipstar','visibility.py',[(L,'''		def site(longitude):
			lat, lon = latitude*np.pi/180, longitude*np.pi/180
			return (self.planetObj.RP*np.cos(lat)*np.cos(lon), self.planetObj.RP*np.cos(lat)*np.sin(lon), self.planetObj.RP*np.sin(lat))
		positions = [site(lon) for lon in self.longitude_array]
		self.lander_pos_x_bi_arr, self.lander_pos_y_bi_arr, self.lander_pos_z_bi_arr = map(np.array, zip(*positions))
		self.lander_pos_x_bi, self.lander_pos_y_bi, self.lander_pos_z_bi = positions[-1]
''')],['Visib','Lander'],'ok')
