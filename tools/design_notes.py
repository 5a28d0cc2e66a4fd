"""Remarks for the table of planted bugs in DESIGN.md."""
_F = "missed at first; "
MISSED = {
    "c31-window": _F + "larger contact sets",
    "c33-packed-key": _F + "sub-check large_body added",
    "c16-recent": _F + "sub-check crowded_cell added",
    "c10-edge-length": _F + "smaller lengths added",
    "c14-bounded-queue": _F + "sub-check dense_overlap added",
    "c30-float32-w": _F + "tolerance of the sweeps sub-check tightened to 1e-11",
    "c27-hinge-delta": _F + "sub-check sweeps added",
    "c35-cell-limit": _F + "sub-check crowded_floor added",
    "c19-loop-key": _F + "sub-check large_subdivision added",
    "c30-sol-alias": _F + "sub-check accept_and_roll_back added",
    "c26-heavy-diag": _F + "very heavy blocks and sub-check units added",
    "c34-sparse-mass": _F + "sub-check units added",
    "c26-mu-cache": _F + "right_hand_side judged again after materials, interactions, parameters or contacts of the engine changed",
    "c36-mu-cache": _F + "contact_terms judged again after the bodies got other materials",
    "c30-color-cache": _F + "sub-check engine_reused added",
    "c46-bvh-rotation": _F + "sub-checks rigid_detection and soft_detection added",
    "c44-case": _F + "mesh formats and spellings of the file extension added",
    "c10-tet-left-handed": _F + "sizes over many magnitudes and lattice/box-corner simplices added",
    "c14-refit-envelope": _F + "sub-check partial_motion (only some vertices move) added",
    "c19-flip-k": _F + "longer beams added",
    "c19-circulator-end": _F + "sub-check large added",
    "c20-circum-rcond": _F + "flat tetrahedra added",
    "c20-left-tolerance": _F + "sizes over many magnitudes added",
    "c22-material-substring": _F + "materials with similar names added",
    "c24-gyro-body": _F + "starts with zero velocities and single-axis spins added",
    "c24-log-dt": _F + "partial last step compared in the log",
    "c25-fixed-bvh": _F + "sub-check history_is_irrelevant added",
    "c28-clamp": _F + "deeper gaps added",
    "c28-velocity": _F + "sub-check single_corner (one contact only) added",
    "c30-mu-index": _F + "sub-check crowd (up to 26 contacts, a friction coefficient each) added",
    "c30-jacobi-tail": _F + "sub-check crowd (up to 26 contacts) added",
    "c34-partial-step": _F + "runs whose length is not a multiple of the step size added",
    "c35-refit-fixed": _F + "histories with several refits and partly fixed bodies added",
    "c35-reduction-round": _F + "scenes with several corners close together added",
    "c36-speculative": _F + "bodies approaching but not touching added",
    "c37-free-again": _F + "conditions created, replaced and removed repeatedly for the same target",
    "c38-many-children": _F + "skeletons with more than one branch point and several children added",
    "c39-euler-case": _F + "all Euler orders with pre- and post-set angles compared",
    "c39-set-partial": _F + "partial state vectors added",
    "c25-same-shape": _F + "bodies with the same orientation and sub-check order_of_bodies added",
    "c34-gravity-cache": _F + "sub-check changes_between_runs added",
    "c34-lame-cache": _F + "sub-check changes_between_runs (materials changed between runs) added",
    "c34-dirichlet-cache": _F + "sub-check changes_between_runs (conditions changed between runs) added",
    "c24-energy-before-projection": _F + "sub-check log_with_contacts added",
    "c34-penetration-count": _F + "sub-check log_with_contacts added",
    "c42-gear-tip": _F + "tip and root arcs of gears judged",
    "c05-cross-axis": _F + "cross products of columns judged",
    "c42-temple-interior": _F + "temples deep enough for interior pillars drawn",
    "c42-pillar-slope": _F + "pillar shafts are judged (judge_shaft), pillars and arches drawn more often",
}
DROPPED = ["c15-boundary-once (equivalent to the original)", "c09-pca-rows (its lines lie in a fix commit)",
           "c17-hull-centre and c21-product-swap (existing tests notice them)", "c25-reduction-pair (demonstration not conclusive)",
           "c35-normal-local, c38-fd-restore, c41-frame-round and c34-dirichlet-damping (no demonstration separated them, or existing tests notice them)",
           "c38-forward-difference (an existing test notices it) and c20-interior-margin (its line lies in a fix commit); both are caught"]
