#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Run by hand when the list changes."""
import json, os
P = []
X = "xrd_simulator/"
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=[X + f for f in files],
            state=[dict(name=a, meaning=b, where=X + c) for a, b, c in state],
            mechanism=[dict(name=a, where=X + b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Rigid body motion moves every point by the same documented isometry",
 "A rigid body motion called at time t maps every point x to R(t*angle)(x - origin) + origin + t*translation, where R is the right-handed rotation about the unit axis, and its rotate and translate methods apply exactly the rotational and translational part; the inverse has the negated axis and translation and the same angle and origin. The result for a point is the same whether it is passed alone, in an (N,3) batch or in an (N,M,3) batch, with one common time or one time per row, and keeps the shape of its input; neither input is modified.",
 ["inputs"], "all unit axes, angles in (0,pi), translations, origins, times in [0,1] and all documented vector/time shapes including batches of size one",
 "tests use a few hand-picked axes, N>1 and mostly zero origin or a single shape; the law quantifies over all shapes x times x motions",
 ["motion.py"], [("RigidBodyMotion.__call__ / rotate / translate / inverse", "motion.py"), ("_RodriguezRotator", "motion.py")],
 ["return values of motion(x,t), rotate, translate, inverse()"])
prop("C02", "A mesh stays consistent under any history of rigid moves",
 "After any sequence of translations, rotations and rigid-body updates a mesh's nodes are the exact composition of those moves applied to the original nodes, in the order made. Connectivity, volumes, sphere radii and the number of elements never change, and element centroids, sphere centres, face normals and the mesh centroid always equal what a mesh freshly built from the current nodes has. A mesh saved and loaded in the middle of the sequence continues it indistinguishably.",
 ["histories", "inputs"], "all sequences of translate/rotate/update/save+load over all meshes",
 "tests apply one operation at a time; interplay of translate after rotate, and save in the middle, is a history property",
 ["mesh.py", "motion.py"], [("TetraMesh.translate / rotate / update", "mesh.py"), ("_expand_mesh_data", "mesh.py")],
 ["public fields of TetraMesh after every call"], [("_mesh.points", "shadow copy of the nodes used by translate", "mesh.py"), ("coord", "current nodes", "mesh.py")])
prop("C03", "Derived element geometry of every mesh is right",
 "For every non-degenerate tetrahedral mesh, whatever the node order of its elements: volumes are the positive element volumes, centroids the vertex means, face normals are unit, perpendicular to their face and outward, and each element sphere contains its four vertices (to one part in 1e4) and is no larger than its circumsphere, nor than the minimal sphere of its three or two extreme vertices where that already contains the element. The mesh centroid is the mean of the element centroids, and a mesh generated from a level set consists of such elements only: they stay within the region where the level set is positive and fill it, as closely as the sampling of the level set allows (nodes within a twentieth of the bounding radius, volume within 8 %), by elements with no more volume than fits the element radius asked for.",
 ["inputs"], "all meshes: any node coordinates, element orderings (positive or negative orientation), obtuse/acute/right/sliver shapes and element counts",
 "tests check single hand-made tetrahedra; the case analysis of the bounding sphere and of orientation depends on the vertex order",
 ["mesh.py", "utils.py"], [("_expand_mesh_data", "mesh.py"), ("_compute_mesh_spheres", "mesh.py"), ("_circumsphere_of_*", "utils.py")],
 ["eradius, espherecentroids, evolumes, enormals, ecentroids, centroid"])
prop("C04", "Transforming a polycrystal moves lab state rigidly and leaves the sample state",
 "After any sequence of transforms, the lab mesh, lab orientations and lab strains of a polycrystal are the original ones moved and rotated by the composition of the applied motions, R U for orientations and R E R^T for strains, while the sample-frame mesh, orientations, strains, phases, phase map, volumes and crystal-frame lattice matrices are unchanged. What the polycrystal diffracts afterwards is what a polycrystal constructed directly in the moved state diffracts. A polycrystal follows its own transforms only: neither the mesh it was made from nor another polycrystal made from that mesh moves with it, nor it with them.",
 ["histories", "inputs"], "all sequences of transforms (any motions, any times in [0,1]) and all polycrystals",
 "tests transform once or twice about z and check mesh/orientation only partly",
 ["polycrystal.py", "mesh.py", "motion.py"], [("Polycrystal.transform", "polycrystal.py"), ("TetraMesh.update", "mesh.py")],
 ["orientation_lab, strain_lab, mesh_lab, *_sample fields and diffract output after each transform"],
 [("orientation_lab/strain_lab/mesh_lab", "current lab state", "polycrystal.py"), ("_eB", "crystal frame lattice matrices", "polycrystal.py")])
prop("C05", "Every reported peak satisfies the Laue condition and describes itself",
 "Every peak a polycrystal reports has a time in [0,1] at which the scattering vector G = R(t) U B (h,k,l) of its element satisfies |k_in + G| = |k_in|, and its other columns follow from its element, reflection and time: phase number, unrotated and rotated G, outgoing wave vector k_in + G, the source point (element sphere centre moved by the motion), element volume, scattering angle, Lorentz, polarization and Scherrer factors, and squared structure factor (1 without a crystal structure file).",
 ["inputs", "configurations"], "all polycrystals, phases, strains, beams, motions and Bragg bounds",
 "tests compare a few columns for a few crystals; consistency of all columns over multi-phase, strained, transformed samples is not sampled",
 ["polycrystal.py", "laue.py", "scattering_factors.py"], [("Polycrystal._compute_peaks", "polycrystal.py"), ("_find_solutions_to_tangens_half_angle_equation", "laue.py")],
 ["peaks tensor returned by diffract"])
prop("C06", "Diffraction reports all illuminated solutions, each exactly once",
 "For every element and every reflection of its phase within the Bragg bounds, diffraction reports each time in [0,1] at which the Laue condition holds and the element's source point is inside the beam exactly once, and nothing else; no reported peak has its source outside the beam. The peak indices are 0..n-1 in row order, and n may be any number including zero and one.",
 ["inputs", "configurations"], "all polycrystals, phases (also phases owning no element), beams (also ones missing the sample) and motions, including Laue equations with zero, one or two roots in the interval and the degenerate linear and tangent cases",
 "tests count peaks of one configuration; missing or duplicated peaks for other element/reflection combinations are invisible to them",
 ["polycrystal.py", "laue.py", "beam.py"], [("_find_solutions_to_tangens_half_angle_equation", "laue.py"), ("illumination filter in diffract", "polycrystal.py")],
 ["peaks tensor returned by diffract"])
prop("C07", "Results depend only on the arguments, never on what was done before",
 "Diffracting, intersecting, rendering, transforming and saving give the same result whenever they are called with the same arguments and object state, whatever was computed before with other beams, bounds, detectors, motions or frames; none of diffract, render, save or a read of a result modifies the polycrystal, beam, detector, motion or an earlier result. A result once returned keeps its meaning when the polycrystal, the beam or the caller's input arrays are changed afterwards, and rendering a result again, also on another detector, equals rendering it for the first time.",
 ["histories"], "all interleavings of diffract, render, transform, beam reshaping, saving, loading and caller-side array mutation over shared polycrystals, beams, detectors, motions and phases",
 "each test builds fresh objects and calls each operation once; stale caches and aliasing only show in longer histories",
 ["polycrystal.py", "detector.py", "phase.py", "beam.py", "motion.py"], [("Polycrystal.diffract", "polycrystal.py"), ("Phase._setup_diffracting_planes", "phase.py"), ("Detector.render / peaks_detector_intersection", "detector.py")],
 ["results of repeated diffract/render calls compared with those of freshly built objects"],
 [("Phase.miller_indices", "reflections of the last diffract call", "phase.py"), ("peaks_dict['mesh_lab'|'beam'|'rigid_body_motion']", "snapshot used by volume rendering", "polycrystal.py")])
prop("C08", "Beam containment and clipping agree with the beam's convex hull",
 "A point strictly inside the convex hull of the beam's vertices is contained in the beam and a point strictly outside is not, one by one or in a batch, in any vertex order and also after the beam vertices are replaced; points closer to the surface than about 1e-6 of the beam's extent may go either way. The intersection of a convex polyhedron with the beam is the convex polyhedron of exactly the common points (none where they are disjoint).",
 ["inputs", "histories"], "all convex beams (vertices in any order, any position and scale from microns to centimetres), points, tetrahedra and sequences of beam reshaping",
 "tests use one cube and a handful of points",
 ["beam.py"], [("Beam.set_beam_vertices", "beam.py"), ("Beam._contains", "beam.py"), ("Beam._intersect", "beam.py")],
 ["illumination filter of diffract; containment and intersection calls"])
prop("C09", "Scattered rays meet the detector where geometry says, or are dropped",
 "For every peak kept by the detector intersection the recorded detector coordinates are where the ray from its source point along its outgoing wave vector crosses the detector plane, measured along the detector's two edges from its corner, and the incidence angle is that between the ray and the detector normal. A peak is kept exactly if that crossing lies in the forward direction and within the detector's bounds (and its intensity factor is finite and positive), kept rows preserve their order and all columns the diffraction reported.",
 ["inputs", "configurations"], "all detector placements and orientations (any two perpendicular edges), sources and ray directions incl. backward and parallel rays",
 "tests aim single rays at one detector",
 ["detector.py"], [("Detector._get_intersection", "detector.py"), ("Detector.peaks_detector_intersection", "detector.py"), ("Detector.contains", "detector.py")],
 ["augmented peaks returned by peaks_detector_intersection"])
prop("C10", "Every peak belongs to exactly one frame and frames slice the scan in order",
 "With k frames, a kept peak diffracting at time t is assigned frame i exactly if i/k < t <= (i+1)/k (time zero belongs to frame 0), so the frames partition the peaks for every k >= 1. Rendering yields frames stacked in order, frame i showing only peaks of frame i, frames without peaks being blank; rendering only the peaks of one frame gives that frame.",
 ["inputs", "configurations"], "all numbers of frames, peak times (incl. exactly 0, 1 and the frame edges) and selections of peaks",
 "tests use one or ten frames with random times; edges and empty frames are not pinned down",
 ["detector.py"], [("frame assignment in peaks_detector_intersection", "detector.py"), ("Detector.render", "detector.py")],
 ["frame column of the augmented peaks, shape and content of render output"])
prop("C11", "A peak's intensity is the product of exactly the enabled factors",
 "The intensity factor of a kept peak is the product of its Lorentz factor, its polarization factor and its squared structure factor, each included exactly when it is enabled on the detector, and one when none is. A peak whose product is infinite, undefined or not positive never reaches an image, so rendered images are always finite.",
 ["inputs", "configurations"], "all eight toggle combinations and all factor values including zero, negative and infinite ones",
 "tests use the default toggles and one or two peaks",
 ["detector.py"], [("peaks_detector_intersection", "detector.py")], ["intensity column and rendered frames"])
prop("C12", "Point-like rendering deposits each peak's intensity once, at its position",
 "Rendering a peak as a small or nano-sized crystal adds to the image of its frame a non-negative spot centred on the peak's detector position whose total equals the peak's intensity factor times its crystal volume whenever the spot lies well inside the detector (for nano-sized crystals up to the detector's kernel threshold), and never more. The image of several peaks is the sum of the images of each, whatever their number, order or batching, and widths follow the configured point spread or the Scherrer broadening.",
 ["inputs", "configurations"], "all peak sets (any number, brightness from very faint to very bright, coinciding, near the border), detector sizes and point spread settings",
 "tests render one or two peaks and look at the maximum or total of one frame",
 ["detector.py"], [("_render_gauss_peaks", "detector.py"), ("_render_airy_peaks / _airy_kernel_batch / _deposit_kernels_batch", "detector.py"), ("_conv2d_gaussian_kernel", "detector.py")],
 ["frames returned by render(method='micro'|'nano')"])
prop("C13", "Volume rendering projects exactly the illuminated crystal volume",
 "Rendering with the projection method adds, per peak, the intensity factor times the volume of the part of the moved element inside the beam (and nothing for an element outside the beam), distributed along the scattered direction over pixels of its geometric shadow only, in proportion to the length of the scattered ray through that part behind each pixel (large crystals, negligible point spread), when that shadow lies inside the detector. Every image is finite and non-negative, also for elements partly outside the detector or smaller than a pixel.",
 ["inputs", "configurations"], "all elements (sizes from far below a pixel to many pixels, slivers), beams cutting them, motions, detector placements",
 "tests project one large tetrahedron onto one detector",
 ["detector.py", "beam.py", "utils.py", "motion.py"], [("_render_projected_volumes", "detector.py"), ("_project_convex_hull", "detector.py"), ("Beam._intersect", "beam.py"), ("_clip_line_with_convex_polyhedron", "utils.py")],
 ["frames returned by render(method='macro')"])
prop("C14", "Saving and loading at any point preserves behaviour",
 "A motion, beam, detector, polycrystal or mesh that is saved and loaded behaves afterwards exactly as the original would have: every public attribute is equal, and moving, diffracting, intersecting and rendering give equal results up to rounding, whatever was done to it before saving. Saving never changes the object being saved or data passed along, adds the right file extension exactly when it is missing, writes nothing beside the named files (an .xdmf picture has an .h5 companion), and a later save to the same path replaces the earlier one.",
 ["histories", "inputs"], "all objects in all reachable states (transformed, deformed, reshaped beams, used for diffraction) and all file names incl. ones with dots",
 "tests save freshly constructed objects and compare a few attributes",
 ["motion.py", "beam.py", "detector.py", "polycrystal.py", "mesh.py"], [("save / load of each class", "polycrystal.py")],
 ["objects returned by load and the files in the target directory"])
prop("C15", "The detector's pixel grid and the experiment template follow their parameters",
 "A detector built from three corners with n pixels has exactly n_z x n_y pixels tiling it, and one built from pixel sizes has as many as are needed to cover its edges, so rendered frames have that shape, for every n and every placement; edge directions are unit, the normal is perpendicular to both, and pixel (i,j) lies i and j pixel sides along the edges from the corner. The scanning-experiment template yields the requested pixel counts and sizes, with the beam along +x through the origin hitting the detector at the requested centre pixel at the requested distance, and the requested beam cross-section, wavelength and rotation.",
 ["inputs", "configurations"], "all pixel counts, pixel sizes, detector placements and template parameters",
 "tests use a few round pixel counts; rounding makes single counts wrong",
 ["detector.py", "templates.py"], [("Detector.__init__ / _get_pixel_coordinates", "detector.py"), ("s3dxrd", "templates.py")],
 ["pixel_coordinates, shape of frames, attributes of the created objects"])
prop("C16", "Strain determines the lattice: B reproduces the strained metric exactly",
 "The lattice matrix B of an element with orientation U and lab strain E is the upper-triangular matrix with positive diagonal for which the strained direct cell F satisfies F^T F = 2 U^T E U + I relative to the unstrained cell, for arbitrarily large feasible strains; zero strain gives the unstrained cell. Converting B back to strain returns the strain, and strains that would invert the cell are rejected with an error instead of being used; each element gets its own strain and its own phase's cell.",
 ["inputs"], "all symmetric strains (small to tens of percent, and infeasible ones), orientations, unit cells (cubic to triclinic), phase maps and batch sizes",
 "tests use a handful of small strains",
 ["utils.py", "polycrystal.py"], [("_epsilon_to_b / _b_to_epsilon / _lab_strain_to_B_matrix", "utils.py"), ("_instantiate_eB", "polycrystal.py")],
 ["scattering vectors reported by diffract; conversion helpers"])
prop("C17", "The reflections considered are exactly the allowed ones within the Bragg bounds",
 "Diffraction considers exactly the reflections of each phase's space group that are not systematically absent and whose Bragg angle for the unstrained cell lies within the requested bounds, all symmetry equivalents and signs included, each once. When a detector is given the upper bound is the smaller of the requested one and the largest angle any detector corner is seen under from the illuminated part of the sample, and the lower bound is always respected.",
 ["inputs", "configurations"], "all space groups, unit cells, wavelengths and Bragg bounds, with and without a detector",
 "tests check that angles are within bounds for one phase; omissions are not noticed",
 ["phase.py", "polycrystal.py", "detector.py"], [("Phase._setup_diffracting_planes", "phase.py"), ("_get_bragg_angle_bounds", "polycrystal.py"), ("_get_wrapping_cone", "detector.py")],
 ["reflections and Bragg angles of reported peaks"])
prop("C18", "Structure factors are the crystallographic sum over all atoms and symmetries",
 "The structure factor of a reflection is the sum over all atoms of the crystal structure file and all symmetry operations of the space group of occupancy times (form factor plus dispersion) times the displacement damping times exp(2 pi i h.r), independent of which other reflections are computed with it. Reflections whose intensity vanishes are never reported as peaks, and Friedel pairs and symmetry equivalents have the intensity crystallography assigns them.",
 ["inputs"], "all structures (isotropic, anisotropic or no displacement, partial occupancy, dispersion), space groups and reflection lists",
 "tests compare one cif for a short reflection list",
 ["structure_factors.py", "phase.py", "polycrystal.py"], [("compute_structure_factors_batch", "structure_factors.py"), ("Phase._set_structure_factors", "phase.py")],
 ["structure factor column of the peaks; batch function"])
prop("C19", "Lorentz, polarization and Scherrer factors follow their definitions",
 "For every outgoing ray the Lorentz factor is 1/(sin 2theta |sin eta|) with eta measured against the rotation axis, infinite only when the ray is within the half-degree tolerance of the beam or of the plane in which the reflection never crosses the Ewald sphere (or goes straight back), and never negative; the polarization factor is 1 minus the squared cosine between ray and polarization and lies in [0,1]; the peak width is 0.9 lambda/(D cos theta) with D the diameter of the sphere of equal volume. Each is computed per ray, independently of the other rays in the batch and of batch size.",
 ["inputs"], "all rays, beams, axes, polarizations, volumes and batch sizes including one and zero",
 "tests check fixed directions",
 ["scattering_factors.py"], [("_lorentz / _polarization / _scherrer", "scattering_factors.py")],
 ["factor columns of peaks and helper functions"])
prop("C20", "Sample templates place, orient and strain every element as asked",
 "A sample made from an orientation density has, for every element, its own proper rotation drawn from the orientation bins with the probabilities the density at that element's centroid gives them (never from a bin of probability zero), the strain that the strain field has at that centroid, and elements that tile the requested cylinder. The powder template yields the requested number of grains, each within the bounding radius with its own proper rotation and the given strain; an orientation density that is not normalised is rejected.",
 ["inputs"], "all orientation densities, strain fields, cylinder sizes, crystal numbers and random seeds",
 "tests check one density statistically",
 ["templates.py", "utils.py"], [("polycrystal_from_odf / _sample_ODF", "templates.py"), ("get_uniform_powder_sample", "templates.py"), ("_alpha_to_quarternion", "utils.py")],
 ["fields of the returned polycrystal"])
prop("C21", "Device configuration is a small state machine that never lies",
 "After any sequence of device configurations with any request and any hardware availability, the reported device is the one tensors are created on, it is the GPU only if one is available and was requested (explicitly or by auto-detection), and every call returns the device selected. An invalid request is rejected with an error and leaves the selection as it was.",
 ["histories", "configurations"], "all sequences of configuration requests (any spelling, None, invalid) under changing hardware availability",
 "tests call it once per request on a machine without GPU",
 ["cuda.py"], [("configure_device / get_selected_device", "cuda.py")], ["return value, selected device, default torch device"],
 [("_device", "currently selected device", "cuda.py")])
prop("C22", "Inputs that cannot be honoured are rejected, never silently computed with",
 "The following inputs raise an error at the call that receives them: rotation axes that are not unit or rotation angles outside the open interval (0,pi) (motions, mesh rotations, the scanning template); beam vertices that are not all corners of their hull, at construction and when a beam is reshaped; polarization not perpendicular to propagation; orientation or strain arrays that are neither (3,3) nor one matrix per element; several phases without a phase map; missing template parameters; unknown render methods; files loaded under another extension than the class writes; a negative lower Bragg bound or Bragg bounds that exclude each other when a detector is given; a detector with both or neither of pixel number and pixel size; level sets without a zero. The same calls with acceptable inputs are accepted, and a rejected call leaves every object involved as it was.",
 ["inputs", "histories"], "all combinations of valid and invalid arguments in all documented positions, on fresh and used objects",
 "tests try one invalid value for a few of them",
 ["motion.py", "beam.py", "detector.py", "polycrystal.py", "templates.py"], [("constructors' assertions and ValueErrors", "motion.py")],
 ["exception or acceptance of each call and object state after it"])
prop("C23", "Automatic rendering uses exactly one size-appropriate method per peak",
 "Automatic rendering gives the image obtained by rendering the smallest crystals as nano-sized, the middle ones as point-like and the ones larger than a pixel by projection, where the class of a peak depends only on its crystal volume and the two limits, by default 0.001 cubic microns and the pixel size cubed (where the limits are crossed the projection wins), so that every peak contributes exactly once. For every method the result has the requested frames, the detector's pixel shape and the requested number type.",
 ["inputs", "configurations"], "all mixtures of crystal sizes (each class possibly empty, volumes on the class limits), pixel sizes, limits, numbers of frames and number types",
 "tests run auto on single-class samples",
 ["detector.py"], [("Detector.render", "detector.py")], ["frames returned by render(method='auto')"])
prop("C24", "The picture saved with a sample shows its orientations, strains and phases",
 "The .xdmf file written along with a saved polycrystal has, for every element of the sample mesh (in sample coordinates, whatever has been transformed or loaded before), the six components of its sample strain, Bunge angles in degrees that compose to its sample orientation (also where the first and last angle are not separable, and for orientations that are rounded), the angle between its orientation and the mean one (the rotation closest to all in the mean square sense) and its phase index. A mesh saved with element data shows exactly the data given, each value at its element.",
 ["inputs", "histories"], "all orientations, strains, phase maps and moves before saving",
 "tests check that files exist and the angles of two orientations",
 ["polycrystal.py", "mesh.py", "utils.py"], [("Polycrystal.save", "polycrystal.py"), ("TetraMesh.save", "mesh.py"), ("_get_misorientations / _bunge_euler_angles", "utils.py")],
 ["contents of the .xdmf files"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
