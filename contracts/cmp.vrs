//% include prelude.vrs
//% include geomspec.vrs
//% include traits.vrs
verus! {
//% include-proved geom geomfns.vrs
}
//% include treespec.vrs
//% include storespec.vrs
//% include file.vrs
//% include-proved lc reader.vrs
//% include-proved tree storedefaults.vrs
//% include-proved disk diskstore.vrs
//% include-proved lc lcstore.vrs
//% include proofspec.vrs
//% include-proved proof prooffns.vrs
//% include consume.vrs
//% include mtreespec.vrs
//% include-proved tree mtreefns.vrs
//% include-proved tree mtreector.vrs
//% include-proved tree mtreebuild.vrs
//% include compact.vrs
