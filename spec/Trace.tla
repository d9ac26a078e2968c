-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* The judge: replays a recorded execution of the implementation as a      *)
(* behaviour of the specification.  Every event must be a step that the    *)
(* specification allows in the current session state s; events that are    *)
(* not are printed with the clauses they break.                            *)
(***************************************************************************)
EXTENDS MotionTrace, SFTrace, StrainTrace, BeamTrace, FactorTrace, DetTrace, SessionTrace, SampleTrace, ContractTrace, Json, IOUtils

VARIABLES i, s

Evs == JsonDeserialize(IOEnv.XV_TRACE).ev

Fresh(e) == [id |-> e.id]
(* s with field f set to v *)
Set(st, f, v) == (f :> v) @@ st

Judge(st, e) ==
    CASE e.op = "scenario" -> <<>>
      [] e.op = "unexpected_error" -> <<"unexpected error in " \o e.what \o ": " \o e.err>>
      [] e.op = "motion_new" -> JudgeMotionNew(st, e)
      [] e.op = "motion_inverse" -> JudgeMotionInverse(st, e)
      [] e.op = "motion_call" -> JudgeMotionCall(st, e)
      [] e.op = "mesh_new" -> JudgeMeshNew(st, e)
      [] e.op = "mesh_made" -> JudgeMeshMade(st, e)
      [] e.op = "mesh_move" -> JudgeMeshMove(st, e)
      [] e.op = "poly_new" -> JudgePolyNew(st, e)
      [] e.op = "poly_transform" -> JudgePolyTransform(st, e)
      [] e.op \in {"poly_park", "poly_pick"} -> <<>>
      [] e.op = "poly_look" -> JudgePolyLook(st, e)
      [] e.op = "laue_batch" -> JudgeLaueBatch(st, e)
      [] e.op = "diffract_refused" -> JudgeDiffractRefused(st, e)
      [] e.op = "sf_batch" -> JudgeSFBatch(st, e)
      [] e.op = "factor_batch" -> JudgeFactorBatch(st, e)
      [] e.op = "beam_contains" -> JudgeBeamContains(st, e)
      [] e.op = "beam_intersect" -> JudgeBeamIntersect(st, e)
      [] e.op = "detector_new" -> JudgeDetNew(st, e)
      [] e.op = "intersect" -> JudgeIntersect(st, e)
      [] e.op = "render" -> JudgeRender(st, e)
      [] e.op = "render_parts" -> JudgeRenderParts(st, e)
      [] e.op = "render_moved" -> JudgeRenderMoved(st, e)
      [] e.op = "psf" -> JudgePsf(st, e)
      [] e.op = "frame_shape" -> JudgeFrameShape(st, e)
      [] e.op = "template" -> JudgeTemplate(st, e)
      [] e.op = "auto" -> JudgeAuto(st, e)
      [] e.op = "store_begin" -> JudgeStoreBegin(st, e)
      [] e.op = "store_step" -> JudgeStoreStep(st, e)
      [] e.op = "xdmf" -> JudgeXdmf(st, e)
      [] e.op = "xdmf_mesh" -> JudgeXdmfMesh(st, e)
      [] e.op = "session_begin" -> <<>>
      [] e.op = "session_step" -> JudgeSessionStep(st, e)
      [] e.op = "odf_sample" -> JudgeOdfSample(st, e)
      [] e.op = "odf_rejected" -> JudgeOdfRejected(st, e)
      [] e.op = "powder" -> JudgePowder(st, e)
      [] e.op = "device_begin" -> <<>>
      [] e.op = "device_step" -> JudgeDeviceStep(st, e)
      [] e.op = "contract_begin" -> <<>>
      [] e.op = "contract_call" -> JudgeContractCall(st, e)
      [] e.op = "contract_look" -> JudgeContractLook(st, e)
      [] e.op = "hkl_set" -> JudgeHklSet(st, e)
      [] e.op = "strain_batch" -> JudgeStrainBatch(st, e)
      [] e.op = "strain_made" -> JudgeStrainMade(st, e)
      [] e.op = "diffract" -> JudgeDiffract(st, e)

Step(st, e) ==
    CASE e.op = "scenario" -> Fresh(e)
      [] e.op = "motion_new" -> Set(st, "motion", MotionOf(e))
      [] e.op = "mesh_new" -> Set(st, "mesh", MeshState(e))
      [] e.op = "mesh_move" -> Set(st, "mesh", MeshAfter(st.mesh, e))
      [] e.op = "poly_new" -> Set(st, "poly", PolyState(e))
      [] e.op = "poly_park" -> Set(st, "parked", (e.name :> st.poly) @@ (IF "parked" \in DOMAIN st THEN st.parked ELSE <<>>))
      [] e.op = "poly_pick" -> Set(st, "poly", st.parked[e.name])
      [] e.op = "store_begin" -> StoreBegin(st, e)
      [] e.op = "session_begin" -> SessionBegin(st, e)
      [] e.op = "session_step" -> SessionAfter(st, e)
      [] e.op = "device_begin" -> DeviceBegin(st)
      [] e.op = "contract_begin" -> ContractBegin(st, e)
      [] e.op = "contract_call" -> ContractAfter(st, e)
      [] e.op = "device_step" -> DeviceAfter(st, e)
      [] e.op = "store_step" -> StoreAfter(st, e)
      [] e.op = "poly_transform" -> Set(st, "poly", PolyAfter(st.poly, e))
      [] OTHER -> st

TraceInit == i = 1 /\ s = [id |-> -1]
TraceNext ==
    /\ i <= Len(Evs)
    /\ LET e == Evs[i]
           b == Judge(s, e)
       IN  /\ IF b = <<>> THEN TRUE
              ELSE PrintT("@@BAD " \o ToJson([id |-> s.id, n |-> i, op |-> e.op, clauses |-> b]))
           /\ s' = Step(s, e)
    /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<i, s>>
TraceDone == TLCGet("distinct") = Len(Evs) + 1
=============================================================================
