BUGS = {}
BUGS["c03_near_label"] = dict(
    property="C03", file="dascore/core/coords.py",
    edits=[("        fraction = func(np.round((array - start) / step, decimals=10))\n", "        fraction = func(np.round((array - start) / step, decimals=6))\n")],
    needs="An evenly sampled coordinate and a range whose bound lies within half a millionth of a sample of a label, on the excluding side.",
    breaks="A sample whose label is (slightly) outside the range is selected.",
    demo='''
import numpy as np, dascore as dc
p = dc.Patch(data=np.arange(10.), coords={"distance": np.arange(10.)}, dims=("distance",))
out = p.select(distance=(2.0000002, 5))
assert out.get_array("distance").min() == 3, out.get_array("distance")
''')
BUGS["c03_shared_dim_queries"] = dict(
    property="C03", file="dascore/core/coordmanager.py",
    edits=[("        for args in zip_longest(*dim_dicts.values()):\n", "        for args in zip(*dim_dicts.values()):\n")],
    needs="One select call naming two coordinates that share a dimension together with a coordinate of another dimension.",
    breaks="The second query on the shared dimension is silently dropped, so samples outside it are returned.",
    demo='''
import numpy as np, dascore as dc
t, d = np.arange(6.), np.arange(3.)
p = dc.Patch(data=np.arange(18.).reshape(6, 3), coords={"time": t, "distance": d, "quality": ("time", t[::-1].copy())}, dims=("time", "distance"))
out = p.select(time=(1, 4), quality=(3, 5), distance=(0, 1))
assert list(out.get_array("time")) == [1, 2], out.get_array("time")
''')
BUGS["c04_sort_two_dims"] = dict(
    property="C04", file="dascore/core/coordmanager.py",
    edits=[('''            for r_coord_name in related_coords:
                coord = new_coords[r_coord_name]
                ind = self.dim_map[r_coord_name].index(dim)
                slicer = [slice(None, None) for _ in coord.shape]
                slicer[ind] = indexer
''', '''            for r_coord_name in related_coords:
                coord = self.coord_map[r_coord_name]
                ind = self.dim_map[r_coord_name].index(dim)
                slicer = [slice(None, None) for _ in coord.shape]
                slicer[ind] = indexer
''')],
    needs="Sorting two unsorted dimensions in one call on a patch with a coordinate attached to both.",
    breaks="The two-dimensional coordinate is only reordered along the last sorted dimension, so its labels belong to other samples.",
    demo='''
import numpy as np, dascore as dc
t, d = np.array([2., 0, 1]), np.array([1., 0])
q = np.arange(6.).reshape(3, 2)
p = dc.Patch(data=q * 10, coords={"time": t, "distance": d, "q": (("time", "distance"), q)}, dims=("time", "distance"))
out = p.sort_coords("time", "distance")
assert np.array_equal(out.get_array("q") * 10, out.data)
''')
BUGS["c08_negative_axis"] = dict(
    property="C08", file="dascore/utils/array.py",
    edits=[("            a = a % ndim\n", "            a = a if a >= 0 else ndim - 1\n")],
    needs="A numpy reduction of a patch with a negative axis other than -1.",
    breaks="The reduced axis is re-expanded, and its labels dropped, at the last dimension instead of the reduced one.",
    demo='''
import numpy as np, dascore as dc
d = np.arange(9.).reshape(3, 3)
p = dc.Patch(data=d, coords={"time": np.arange(3.), "distance": np.arange(3.) + 5}, dims=("time", "distance"))
out = np.sum(p, axis=-2)
assert out.shape == (1, 3), out.shape
assert np.array_equal(out.get_array("distance"), [5., 6, 7])
''')
