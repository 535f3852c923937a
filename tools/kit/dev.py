import array
import devsim_py3 as d

def arr(o, c):
    a = array.array(c)
    a.frombytes(bytes(o))
    return list(a)

class Solver:
    """a dense solver: devsim's direct_solver "custom", so that demonstrations can solve"""
    fail_factor = fail_solve = False
    log = []
    def __init__(self, n):
        self.n = n

def solver(**k):
    if k["action"] == "init":
        Solver.transpose = k["transpose"]
        return {"matrix_format": "csc", "solver_object": Solver(k["n"]), "status": True, "message": ""}
    s = k["solver_object"]
    n = s.n
    Solver.log.append(k["action"])
    if k["action"] == "factor":
        if Solver.fail_factor: return {"status": False, "message": "factorization failed"}
        ap, ai, ax = arr(k["Ap"], "i"), arr(k["Ai"], "i"), arr(k["Ax"], "d")
        if k["is_complex"]: ax = [complex(ax[2*i], ax[2*i+1]) for i in range(len(ax)//2)]
        m = [[0.0]*n for i in range(n)]
        for j in range(n):
            for p in range(ap[j], ap[j+1]):
                if Solver.transpose: m[j][ai[p]] += ax[p]
                else: m[ai[p]][j] += ax[p]
        s.m = m
        return {"status": True, "message": ""}
    if Solver.fail_solve: return {"status": False, "message": "solve failed", "x": k["b"]}
    b = arr(k["b"], "d")
    if k["is_complex"]: b = [complex(b[2*i], b[2*i+1]) for i in range(len(b)//2)]
    m = [r[:] for r in s.m]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(m[r][i]))
        m[i], m[p] = m[p], m[i]; b[i], b[p] = b[p], b[i]
        for r in range(i+1, n):
            f = m[r][i]/m[i][i]
            if f:
                for c in range(i, n): m[r][c] -= f*m[i][c]
                b[r] -= f*b[i]
    for i in range(n-1, -1, -1):
        b[i] = (b[i]-sum(m[i][c]*b[c] for c in range(i+1, n)))/m[i][i]
    if k["is_complex"]: b = [y for z in b for y in (z.real, z.imag)]
    return {"status": True, "message": "", "x": array.array("d", b)}

def use_solver():
    d.set_parameter(name="direct_solver", value="custom")
    d.set_parameter(name="solver_callback", value=solver)

def dev1d(name="d"):
    m = "m_" + name
    d.create_1d_mesh(mesh=m)
    d.add_1d_mesh_line(mesh=m,pos=0,ps=0.5,tag="a"); d.add_1d_mesh_line(mesh=m,pos=1,ps=0.5,tag="b")
    d.add_1d_contact(mesh=m,name="ca",tag="a",material="metal"); d.add_1d_contact(mesh=m,name="cb",tag="b",material="metal")
    d.add_1d_region(mesh=m,material="Si",region="r",tag1="a",tag2="b")
    d.finalize_mesh(mesh=m); d.create_device(mesh=m,device=name)

def dev2d(name="d", ps=0.5, contacts=()):
    """unit square r between two metal regions; a contact to each"""
    m = "m_" + name
    d.create_2d_mesh(mesh=m)
    for x in (-1,0,1,2): d.add_2d_mesh_line(mesh=m,dir="x",pos=x,ps=ps)
    for y in (0,1): d.add_2d_mesh_line(mesh=m,dir="y",pos=y,ps=ps)
    d.add_2d_region(mesh=m,material="metal",region="m1",xl=-1,xh=0)
    d.add_2d_region(mesh=m,material="metal",region="m2",xl=1,xh=2)
    d.add_2d_region(mesh=m,material="Si",region="r",xl=0,xh=1)
    for n, x in (("ca",0.0),("cb",1.0)): d.add_2d_contact(mesh=m,name=n,material="metal",region="r",xl=x,xh=x)
    d.finalize_mesh(mesh=m); d.create_device(mesh=m,device=name)

def two_regions(name="d"):
    m = "m_" + name
    d.create_1d_mesh(mesh=m)
    for i,t in enumerate("abc"): d.add_1d_mesh_line(mesh=m,pos=i,ps=0.5,tag=t)
    d.add_1d_contact(mesh=m,name="ca",tag="a",material="metal"); d.add_1d_contact(mesh=m,name="cb",tag="c",material="metal")
    d.add_1d_interface(mesh=m,name="ib",tag="b")
    d.add_1d_region(mesh=m,material="Si",region="r0",tag1="a",tag2="b")
    d.add_1d_region(mesh=m,material="Si",region="r1",tag1="b",tag2="c")
    d.finalize_mesh(mesh=m); d.create_device(mesh=m,device=name)

def laplace(name="d", region="r", bias=(0.0, 1.0)):
    """Laplace equation for V on a device made by dev1d or dev2d"""
    k = dict(device=name, region=region)
    d.node_solution(name="V", **k)
    d.edge_from_node_model(node_model="V", **k)
    for n, e in (("E", "(V@n0-V@n1)*EdgeInverseLength"), ("E:V@n0", "EdgeInverseLength"), ("E:V@n1", "-EdgeInverseLength")):
        d.edge_model(name=n, equation=e+";", **k)
    d.equation(name="Pois", variable_name="V", edge_model="E", variable_update="default", **k)
    for c, v in zip(("ca", "cb"), bias):
        d.set_parameter(device=name, name=c+"_bias", value=v)
        d.contact_node_model(device=name, contact=c, name=c+"_bc", equation="V-%s_bias;" % c)
        d.contact_node_model(device=name, contact=c, name=c+"_bc:V", equation="1;")
        d.contact_equation(device=name, contact=c, name="Pois", node_model=c+"_bc", edge_charge_model="E")

def solve(**k):
    a = dict(type="dc", absolute_error=1e-8, relative_error=1e-8, maximum_iterations=20)
    a.update(k)
    return d.solve(**a)
