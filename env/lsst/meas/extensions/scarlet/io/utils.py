from ngmix import env


def updateCatalogFootprints(modelData, catalog, band, imageForRedistribution=None,
                            removeScarletData=True, updateFluxColumns=True):
    env.log("lsst_update_footprints", band=band, remove=removeScarletData)
    h = env.hook("lsst_update_footprints")
    if h is not None:
        h(modelData, catalog, band)
