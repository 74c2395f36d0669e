// Written by tools/gen_gmsh_table.py
// clang-format off
namespace gmsh { void initialize(int a0, char** a1, const bool a2, const bool a3) { Call c("initialize"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh { int isInitialized() { Call c("isInitialized"); c.end(); return c.result<int>(); } }
namespace gmsh { void finalize() { Call c("finalize"); c.end(); } }
namespace gmsh { void open(const std::string& a0) { Call c("open"); c.in(a0); c.end(); } }
namespace gmsh { void merge(const std::string& a0) { Call c("merge"); c.in(a0); c.end(); } }
namespace gmsh { void write(const std::string& a0) { Call c("write"); c.in(a0); c.end(); } }
namespace gmsh { void clear() { Call c("clear"); c.end(); } }
namespace gmsh::option { void setNumber(const std::string& a0, const double a1) { Call c("option::setNumber"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::option { void getNumber(const std::string& a0, double& a1) { Call c("option::getNumber"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::option { void setString(const std::string& a0, const std::string& a1) { Call c("option::setString"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::option { void getString(const std::string& a0, std::string& a1) { Call c("option::getString"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::option { void setColor(const std::string& a0, const int a1, const int a2, const int a3, const int a4) { Call c("option::setColor"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::option { void getColor(const std::string& a0, int& a1, int& a2, int& a3, int& a4) { Call c("option::getColor"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model { void add(const std::string& a0) { Call c("model::add"); c.in(a0); c.end(); } }
namespace gmsh::model { void remove() { Call c("model::remove"); c.end(); } }
namespace gmsh::model { void list(std::vector<std::string>& a0) { Call c("model::list"); c.out(a0); c.end(); } }
namespace gmsh::model { void getCurrent(std::string& a0) { Call c("model::getCurrent"); c.out(a0); c.end(); } }
namespace gmsh::model { void setCurrent(const std::string& a0) { Call c("model::setCurrent"); c.in(a0); c.end(); } }
namespace gmsh::model { void getFileName(std::string& a0) { Call c("model::getFileName"); c.out(a0); c.end(); } }
namespace gmsh::model { void setFileName(const std::string& a0) { Call c("model::setFileName"); c.in(a0); c.end(); } }
namespace gmsh::model { void getEntities(std::vector<std::pair<int,int>>& a0, const int a1) { Call c("model::getEntities"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::model { void setEntityName(const int a0, const int a1, const std::string& a2) { Call c("model::setEntityName"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model { void getEntityName(const int a0, const int a1, std::string& a2) { Call c("model::getEntityName"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void removeEntityName(const std::string& a0) { Call c("model::removeEntityName"); c.in(a0); c.end(); } }
namespace gmsh::model { void getPhysicalGroups(std::vector<std::pair<int,int>>& a0, const int a1) { Call c("model::getPhysicalGroups"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::model { void getEntitiesForPhysicalGroup(const int a0, const int a1, std::vector<int>& a2) { Call c("model::getEntitiesForPhysicalGroup"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void getPhysicalGroupsForEntity(const int a0, const int a1, std::vector<int>& a2) { Call c("model::getPhysicalGroupsForEntity"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { int addPhysicalGroup(const int a0, const std::vector<int>& a1, const int a2, const std::string& a3) { Call c("model::addPhysicalGroup"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); return c.result<int>(); } }
namespace gmsh::model { void removePhysicalGroups(const std::vector<std::pair<int,int>>& a0) { Call c("model::removePhysicalGroups"); c.in(a0); c.end(); } }
namespace gmsh::model { void setPhysicalName(const int a0, const int a1, const std::string& a2) { Call c("model::setPhysicalName"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model { void getPhysicalName(const int a0, const int a1, std::string& a2) { Call c("model::getPhysicalName"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void removePhysicalName(const std::string& a0) { Call c("model::removePhysicalName"); c.in(a0); c.end(); } }
namespace gmsh::model { void setTag(const int a0, const int a1, const int a2) { Call c("model::setTag"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model { void getBoundary(const std::vector<std::pair<int,int>>& a0, std::vector<std::pair<int,int>>& a1, const bool a2, const bool a3, const bool a4) { Call c("model::getBoundary"); c.in(a0); c.out(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model { void getAdjacencies(const int a0, const int a1, std::vector<int>& a2, std::vector<int>& a3) { Call c("model::getAdjacencies"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, std::vector<std::pair<int,int>>& a6, const int a7) { Call c("model::getEntitiesInBoundingBox"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.out(a6); c.in(a7); c.end(); } }
namespace gmsh::model { void getBoundingBox(const int a0, const int a1, double& a2, double& a3, double& a4, double& a5, double& a6, double& a7) { Call c("model::getBoundingBox"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.out(a7); c.end(); } }
namespace gmsh::model { int getDimension() { Call c("model::getDimension"); c.end(); return c.result<int>(); } }
namespace gmsh::model { int addDiscreteEntity(const int a0, const int a1, const std::vector<int>& a2) { Call c("model::addDiscreteEntity"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model { void removeEntities(const std::vector<std::pair<int,int>>& a0, const bool a1) { Call c("model::removeEntities"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model { void getType(const int a0, const int a1, std::string& a2) { Call c("model::getType"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void getParent(const int a0, const int a1, int& a2, int& a3) { Call c("model::getParent"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model { int getNumberOfPartitions() { Call c("model::getNumberOfPartitions"); c.end(); return c.result<int>(); } }
namespace gmsh::model { void getPartitions(const int a0, const int a1, std::vector<int>& a2) { Call c("model::getPartitions"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void getValue(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getValue"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getDerivative(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getDerivative"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getSecondDerivative(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getSecondDerivative"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getCurvature(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getCurvature"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getPrincipalCurvatures(const int a0, const std::vector<double>& a1, std::vector<double>& a2, std::vector<double>& a3, std::vector<double>& a4, std::vector<double>& a5) { Call c("model::getPrincipalCurvatures"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.end(); } }
namespace gmsh::model { void getNormal(const int a0, const std::vector<double>& a1, std::vector<double>& a2) { Call c("model::getNormal"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void getParametrization(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getParametrization"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.end(); } }
namespace gmsh::model { void getParametrizationBounds(const int a0, const int a1, std::vector<double>& a2, std::vector<double>& a3) { Call c("model::getParametrizationBounds"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model { int isInside(const int a0, const int a1, const std::vector<double>& a2, const bool a3) { Call c("model::isInside"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); return c.result<int>(); } }
namespace gmsh::model { void getClosestPoint(const int a0, const int a1, const std::vector<double>& a2, std::vector<double>& a3, std::vector<double>& a4) { Call c("model::getClosestPoint"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model { void reparametrizeOnSurface(const int a0, const int a1, const std::vector<double>& a2, const int a3, std::vector<double>& a4, const int a5) { Call c("model::reparametrizeOnSurface"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.in(a5); c.end(); } }
namespace gmsh::model { void setVisibility(const std::vector<std::pair<int,int>>& a0, const int a1, const bool a2) { Call c("model::setVisibility"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model { void getVisibility(const int a0, const int a1, int& a2) { Call c("model::getVisibility"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model { void setVisibilityPerWindow(const int a0, const int a1) { Call c("model::setVisibilityPerWindow"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model { void setColor(const std::vector<std::pair<int,int>>& a0, const int a1, const int a2, const int a3, const int a4, const bool a5) { Call c("model::setColor"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model { void getColor(const int a0, const int a1, int& a2, int& a3, int& a4, int& a5) { Call c("model::getColor"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.end(); } }
namespace gmsh::model { void setCoordinates(const int a0, const double a1, const double a2, const double a3) { Call c("model::setCoordinates"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void generate(const int a0) { Call c("model::mesh::generate"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void partition(const int a0, const std::vector<std::size_t>& a1, const std::vector<int>& a2) { Call c("model::mesh::partition"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void unpartition() { Call c("model::mesh::unpartition"); c.end(); } }
namespace gmsh::model::mesh { void optimize(const std::string& a0, const bool a1, const int a2, const std::vector<std::pair<int,int>>& a3) { Call c("model::mesh::optimize"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void recombine() { Call c("model::mesh::recombine"); c.end(); } }
namespace gmsh::model::mesh { void refine() { Call c("model::mesh::refine"); c.end(); } }
namespace gmsh::model::mesh { void setOrder(const int a0) { Call c("model::mesh::setOrder"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void getLastEntityError(std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::getLastEntityError"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh { void getLastNodeError(std::vector<std::size_t>& a0) { Call c("model::mesh::getLastNodeError"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh { void clear(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::clear"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void reverse(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::reverse"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void affineTransform(const std::vector<double>& a0, const std::vector<std::pair<int,int>>& a1) { Call c("model::mesh::affineTransform"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void getNodes(std::vector<std::size_t>& a0, std::vector<double>& a1, std::vector<double>& a2, const int a3, const int a4, const bool a5, const bool a6) { Call c("model::mesh::getNodes"); c.out(a0); c.out(a1); c.out(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void getNodesByElementType(const int a0, std::vector<std::size_t>& a1, std::vector<double>& a2, std::vector<double>& a3, const int a4, const bool a5) { Call c("model::mesh::getNodesByElementType"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getNode(const std::size_t a0, std::vector<double>& a1, std::vector<double>& a2, int& a3, int& a4) { Call c("model::mesh::getNode"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model::mesh { void setNode(const std::size_t a0, const std::vector<double>& a1, const std::vector<double>& a2) { Call c("model::mesh::setNode"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void rebuildNodeCache(const bool a0) { Call c("model::mesh::rebuildNodeCache"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void rebuildElementCache(const bool a0) { Call c("model::mesh::rebuildElementCache"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void getNodesForPhysicalGroup(const int a0, const int a1, std::vector<std::size_t>& a2, std::vector<double>& a3) { Call c("model::mesh::getNodesForPhysicalGroup"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model::mesh { void getMaxNodeTag(std::size_t& a0) { Call c("model::mesh::getMaxNodeTag"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh { void addNodes(const int a0, const int a1, const std::vector<std::size_t>& a2, const std::vector<double>& a3, const std::vector<double>& a4) { Call c("model::mesh::addNodes"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::mesh { void reclassifyNodes() { Call c("model::mesh::reclassifyNodes"); c.end(); } }
namespace gmsh::model::mesh { void relocateNodes(const int a0, const int a1) { Call c("model::mesh::relocateNodes"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void getElements(std::vector<int>& a0, std::vector<std::vector<std::size_t>>& a1, std::vector<std::vector<std::size_t>>& a2, const int a3, const int a4) { Call c("model::mesh::getElements"); c.out(a0); c.out(a1); c.out(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::mesh { void getElement(const std::size_t a0, int& a1, std::vector<std::size_t>& a2, int& a3, int& a4) { Call c("model::mesh::getElement"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model::mesh { void getElementByCoordinates(const double a0, const double a1, const double a2, std::size_t& a3, int& a4, std::vector<std::size_t>& a5, double& a6, double& a7, double& a8, const int a9, const bool a10) { Call c("model::mesh::getElementByCoordinates"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.out(a7); c.out(a8); c.in(a9); c.in(a10); c.end(); } }
namespace gmsh::model::mesh { void getElementsByCoordinates(const double a0, const double a1, const double a2, std::vector<std::size_t>& a3, const int a4, const bool a5) { Call c("model::mesh::getElementsByCoordinates"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getLocalCoordinatesInElement(const std::size_t a0, const double a1, const double a2, const double a3, double& a4, double& a5, double& a6) { Call c("model::mesh::getLocalCoordinatesInElement"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.out(a5); c.out(a6); c.end(); } }
namespace gmsh::model::mesh { void getElementTypes(std::vector<int>& a0, const int a1, const int a2) { Call c("model::mesh::getElementTypes"); c.out(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { int getElementType(const std::string& a0, const int a1, const bool a2) { Call c("model::mesh::getElementType"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::mesh { void getElementProperties(const int a0, std::string& a1, int& a2, int& a3, int& a4, std::vector<double>& a5, int& a6) { Call c("model::mesh::getElementProperties"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.end(); } }
namespace gmsh::model::mesh { void getElementsByType(const int a0, std::vector<std::size_t>& a1, std::vector<std::size_t>& a2, const int a3, const std::size_t a4, const std::size_t a5) { Call c("model::mesh::getElementsByType"); c.in(a0); c.out(a1); c.out(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getMaxElementTag(std::size_t& a0) { Call c("model::mesh::getMaxElementTag"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh { void preallocateElementsByType(const int a0, const bool a1, const bool a2, std::vector<std::size_t>& a3, std::vector<std::size_t>& a4, const int a5) { Call c("model::mesh::preallocateElementsByType"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.out(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getElementQualities(const std::vector<std::size_t>& a0, std::vector<double>& a1, const std::string& a2, const std::size_t a3, const std::size_t a4) { Call c("model::mesh::getElementQualities"); c.in(a0); c.out(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::mesh { void addElements(const int a0, const int a1, const std::vector<int>& a2, const std::vector<std::vector<std::size_t>>& a3, const std::vector<std::vector<std::size_t>>& a4) { Call c("model::mesh::addElements"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::mesh { void addElementsByType(const int a0, const int a1, const std::vector<std::size_t>& a2, const std::vector<std::size_t>& a3) { Call c("model::mesh::addElementsByType"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void getIntegrationPoints(const int a0, const std::string& a1, std::vector<double>& a2, std::vector<double>& a3) { Call c("model::mesh::getIntegrationPoints"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model::mesh { void getJacobians(const int a0, const std::vector<double>& a1, std::vector<double>& a2, std::vector<double>& a3, std::vector<double>& a4, const int a5, const std::size_t a6, const std::size_t a7) { Call c("model::mesh::getJacobians"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::model::mesh { void preallocateJacobians(const int a0, const int a1, const bool a2, const bool a3, const bool a4, std::vector<double>& a5, std::vector<double>& a6, std::vector<double>& a7, const int a8) { Call c("model::mesh::preallocateJacobians"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.out(a5); c.out(a6); c.out(a7); c.in(a8); c.end(); } }
namespace gmsh::model::mesh { void getJacobian(const std::size_t a0, const std::vector<double>& a1, std::vector<double>& a2, std::vector<double>& a3, std::vector<double>& a4) { Call c("model::mesh::getJacobian"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model::mesh { void getBasisFunctions(const int a0, const std::vector<double>& a1, const std::string& a2, int& a3, std::vector<double>& a4, int& a5, const std::vector<int>& a6) { Call c("model::mesh::getBasisFunctions"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.out(a4); c.out(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void getBasisFunctionsOrientation(const int a0, const std::string& a1, std::vector<int>& a2, const int a3, const std::size_t a4, const std::size_t a5) { Call c("model::mesh::getBasisFunctionsOrientation"); c.in(a0); c.in(a1); c.out(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getBasisFunctionsOrientationForElement(const std::size_t a0, const std::string& a1, int& a2) { Call c("model::mesh::getBasisFunctionsOrientationForElement"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh { int getNumberOfOrientations(const int a0, const std::string& a1) { Call c("model::mesh::getNumberOfOrientations"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::mesh { void preallocateBasisFunctionsOrientation(const int a0, std::vector<int>& a1, const int a2) { Call c("model::mesh::preallocateBasisFunctionsOrientation"); c.in(a0); c.out(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void getEdges(const std::vector<std::size_t>& a0, std::vector<std::size_t>& a1, std::vector<int>& a2) { Call c("model::mesh::getEdges"); c.in(a0); c.out(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh { void getFaces(const int a0, const std::vector<std::size_t>& a1, std::vector<std::size_t>& a2, std::vector<int>& a3) { Call c("model::mesh::getFaces"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model::mesh { void createEdges(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::createEdges"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void createFaces(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::createFaces"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void getAllEdges(std::vector<std::size_t>& a0, std::vector<std::size_t>& a1) { Call c("model::mesh::getAllEdges"); c.out(a0); c.out(a1); c.end(); } }
namespace gmsh::model::mesh { void getAllFaces(const int a0, std::vector<std::size_t>& a1, std::vector<std::size_t>& a2) { Call c("model::mesh::getAllFaces"); c.in(a0); c.out(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh { void addEdges(const std::vector<std::size_t>& a0, const std::vector<std::size_t>& a1) { Call c("model::mesh::addEdges"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void addFaces(const int a0, const std::vector<std::size_t>& a1, const std::vector<std::size_t>& a2) { Call c("model::mesh::addFaces"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void getKeys(const int a0, const std::string& a1, std::vector<int>& a2, std::vector<std::size_t>& a3, std::vector<double>& a4, const int a5, const bool a6) { Call c("model::mesh::getKeys"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void getKeysForElement(const std::size_t a0, const std::string& a1, std::vector<int>& a2, std::vector<std::size_t>& a3, std::vector<double>& a4, const bool a5) { Call c("model::mesh::getKeysForElement"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { int getNumberOfKeys(const int a0, const std::string& a1) { Call c("model::mesh::getNumberOfKeys"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::mesh { void getKeysInformation(const std::vector<int>& a0, const std::vector<std::size_t>& a1, const int a2, const std::string& a3, std::vector<std::pair<int,int>>& a4) { Call c("model::mesh::getKeysInformation"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.end(); } }
namespace gmsh::model::mesh { void getBarycenters(const int a0, const int a1, const bool a2, const bool a3, std::vector<double>& a4, const std::size_t a5, const std::size_t a6) { Call c("model::mesh::getBarycenters"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void preallocateBarycenters(const int a0, std::vector<double>& a1, const int a2) { Call c("model::mesh::preallocateBarycenters"); c.in(a0); c.out(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void getElementEdgeNodes(const int a0, std::vector<std::size_t>& a1, const int a2, const bool a3, const std::size_t a4, const std::size_t a5) { Call c("model::mesh::getElementEdgeNodes"); c.in(a0); c.out(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::model::mesh { void getElementFaceNodes(const int a0, const int a1, std::vector<std::size_t>& a2, const int a3, const bool a4, const std::size_t a5, const std::size_t a6) { Call c("model::mesh::getElementFaceNodes"); c.in(a0); c.in(a1); c.out(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void getGhostElements(const int a0, const int a1, std::vector<std::size_t>& a2, std::vector<int>& a3) { Call c("model::mesh::getGhostElements"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.end(); } }
namespace gmsh::model::mesh { void setSize(const std::vector<std::pair<int,int>>& a0, const double a1) { Call c("model::mesh::setSize"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void getSizes(const std::vector<std::pair<int,int>>& a0, std::vector<double>& a1) { Call c("model::mesh::getSizes"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::mesh { void setSizeAtParametricPoints(const int a0, const int a1, const std::vector<double>& a2, const std::vector<double>& a3) { Call c("model::mesh::setSizeAtParametricPoints"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void setSizeCallback(std::function<double(int,int,double,double,double,double)> a0) { Call c("model::mesh::setSizeCallback"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void removeSizeCallback() { Call c("model::mesh::removeSizeCallback"); c.end(); } }
namespace gmsh::model::mesh { void setTransfiniteCurve(const int a0, const int a1, const std::string& a2, const double a3) { Call c("model::mesh::setTransfiniteCurve"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void setTransfiniteSurface(const int a0, const std::string& a1, const std::vector<int>& a2) { Call c("model::mesh::setTransfiniteSurface"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setTransfiniteVolume(const int a0, const std::vector<int>& a1) { Call c("model::mesh::setTransfiniteVolume"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void setTransfiniteAutomatic(const std::vector<std::pair<int,int>>& a0, const double a1, const bool a2) { Call c("model::mesh::setTransfiniteAutomatic"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setRecombine(const int a0, const int a1, const double a2) { Call c("model::mesh::setRecombine"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setSmoothing(const int a0, const int a1, const int a2) { Call c("model::mesh::setSmoothing"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setReverse(const int a0, const int a1, const bool a2) { Call c("model::mesh::setReverse"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setAlgorithm(const int a0, const int a1, const int a2) { Call c("model::mesh::setAlgorithm"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setSizeFromBoundary(const int a0, const int a1, const int a2) { Call c("model::mesh::setSizeFromBoundary"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void setCompound(const int a0, const std::vector<int>& a1) { Call c("model::mesh::setCompound"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void setOutwardOrientation(const int a0) { Call c("model::mesh::setOutwardOrientation"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void removeConstraints(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::removeConstraints"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void embed(const int a0, const std::vector<int>& a1, const int a2, const int a3) { Call c("model::mesh::embed"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void removeEmbedded(const std::vector<std::pair<int,int>>& a0, const int a1) { Call c("model::mesh::removeEmbedded"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void getEmbedded(const int a0, const int a1, std::vector<std::pair<int,int>>& a2) { Call c("model::mesh::getEmbedded"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh { void reorderElements(const int a0, const int a1, const std::vector<std::size_t>& a2) { Call c("model::mesh::reorderElements"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh { void renumberNodes(const std::vector<std::size_t>& a0, const std::vector<std::size_t>& a1) { Call c("model::mesh::renumberNodes"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void renumberElements(const std::vector<std::size_t>& a0, const std::vector<std::size_t>& a1) { Call c("model::mesh::renumberElements"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void setPeriodic(const int a0, const std::vector<int>& a1, const std::vector<int>& a2, const std::vector<double>& a3) { Call c("model::mesh::setPeriodic"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void getPeriodic(const int a0, const std::vector<int>& a1, std::vector<int>& a2) { Call c("model::mesh::getPeriodic"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh { void getPeriodicNodes(const int a0, const int a1, int& a2, std::vector<std::size_t>& a3, std::vector<std::size_t>& a4, std::vector<double>& a5, const bool a6) { Call c("model::mesh::getPeriodicNodes"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.in(a6); c.end(); } }
namespace gmsh::model::mesh { void getPeriodicKeys(const int a0, const std::string& a1, const int a2, int& a3, std::vector<int>& a4, std::vector<int>& a5, std::vector<std::size_t>& a6, std::vector<std::size_t>& a7, std::vector<double>& a8, std::vector<double>& a9, const bool a10) { Call c("model::mesh::getPeriodicKeys"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.out(a7); c.out(a8); c.out(a9); c.in(a10); c.end(); } }
namespace gmsh::model::mesh { void importStl() { Call c("model::mesh::importStl"); c.end(); } }
namespace gmsh::model::mesh { void getDuplicateNodes(std::vector<std::size_t>& a0, const std::vector<std::pair<int,int>>& a1) { Call c("model::mesh::getDuplicateNodes"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void removeDuplicateNodes(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::removeDuplicateNodes"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void splitQuadrangles(const double a0, const int a1) { Call c("model::mesh::splitQuadrangles"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void setVisibility(const std::vector<std::size_t>& a0, const int a1) { Call c("model::mesh::setVisibility"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void classifySurfaces(const double a0, const bool a1, const bool a2, const double a3, const bool a4) { Call c("model::mesh::classifySurfaces"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::mesh { void createGeometry(const std::vector<std::pair<int,int>>& a0) { Call c("model::mesh::createGeometry"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh { void createTopology(const bool a0, const bool a1) { Call c("model::mesh::createTopology"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::mesh { void addHomologyRequest(const std::string& a0, const std::vector<int>& a1, const std::vector<int>& a2, const std::vector<int>& a3) { Call c("model::mesh::addHomologyRequest"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::mesh { void clearHomologyRequests() { Call c("model::mesh::clearHomologyRequests"); c.end(); } }
namespace gmsh::model::mesh { void computeCrossField(std::vector<int>& a0) { Call c("model::mesh::computeCrossField"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh { void triangulate(const std::vector<double>& a0, std::vector<std::size_t>& a1) { Call c("model::mesh::triangulate"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::mesh { void tetrahedralize(const std::vector<double>& a0, std::vector<std::size_t>& a1) { Call c("model::mesh::tetrahedralize"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::mesh::field { int add(const std::string& a0, const int a1) { Call c("model::mesh::field::add"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::mesh::field { void remove(const int a0) { Call c("model::mesh::field::remove"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh::field { void list(std::vector<int>& a0) { Call c("model::mesh::field::list"); c.out(a0); c.end(); } }
namespace gmsh::model::mesh::field { void getType(const int a0, std::string& a1) { Call c("model::mesh::field::getType"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::mesh::field { void setNumber(const int a0, const std::string& a1, const double a2) { Call c("model::mesh::field::setNumber"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh::field { void getNumber(const int a0, const std::string& a1, double& a2) { Call c("model::mesh::field::getNumber"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh::field { void setString(const int a0, const std::string& a1, const std::string& a2) { Call c("model::mesh::field::setString"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh::field { void getString(const int a0, const std::string& a1, std::string& a2) { Call c("model::mesh::field::getString"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh::field { void setNumbers(const int a0, const std::string& a1, const std::vector<double>& a2) { Call c("model::mesh::field::setNumbers"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::mesh::field { void getNumbers(const int a0, const std::string& a1, std::vector<double>& a2) { Call c("model::mesh::field::getNumbers"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::mesh::field { void setAsBackgroundMesh(const int a0) { Call c("model::mesh::field::setAsBackgroundMesh"); c.in(a0); c.end(); } }
namespace gmsh::model::mesh::field { void setAsBoundaryLayer(const int a0) { Call c("model::mesh::field::setAsBoundaryLayer"); c.in(a0); c.end(); } }
namespace gmsh::model::geo { int addPoint(const double a0, const double a1, const double a2, const double a3, const int a4) { Call c("model::geo::addPoint"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addLine(const int a0, const int a1, const int a2) { Call c("model::geo::addLine"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addCircleArc(const int a0, const int a1, const int a2, const int a3, const double a4, const double a5, const double a6) { Call c("model::geo::addCircleArc"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4, const double a5, const double a6, const double a7) { Call c("model::geo::addEllipseArc"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addBSpline(const std::vector<int>& a0, const int a1) { Call c("model::geo::addBSpline"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addBezier(const std::vector<int>& a0, const int a1) { Call c("model::geo::addBezier"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addPolyline(const std::vector<int>& a0, const int a1) { Call c("model::geo::addPolyline"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addCompoundSpline(const std::vector<int>& a0, const int a1, const int a2) { Call c("model::geo::addCompoundSpline"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addCompoundBSpline(const std::vector<int>& a0, const int a1, const int a2) { Call c("model::geo::addCompoundBSpline"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addCurveLoop(const std::vector<int>& a0, const int a1, const bool a2) { Call c("model::geo::addCurveLoop"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { void addCurveLoops(const std::vector<int>& a0, std::vector<int>& a1) { Call c("model::geo::addCurveLoops"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::geo { int addPlaneSurface(const std::vector<int>& a0, const int a1) { Call c("model::geo::addPlaneSurface"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { int addSurfaceFilling(const std::vector<int>& a0, const int a1, const int a2) { Call c("model::geo::addSurfaceFilling"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { void revolve(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, std::vector<std::pair<int,int>>& a8, const std::vector<int>& a9, const std::vector<double>& a10, const bool a11) { Call c("model::geo::revolve"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.out(a8); c.in(a9); c.in(a10); c.in(a11); c.end(); } }
namespace gmsh::model::geo { void twist(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const double a8, const double a9, const double a10, std::vector<std::pair<int,int>>& a11, const std::vector<int>& a12, const std::vector<double>& a13, const bool a14) { Call c("model::geo::twist"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.in(a10); c.out(a11); c.in(a12); c.in(a13); c.in(a14); c.end(); } }
namespace gmsh::model::geo { void extrudeBoundaryLayer(const std::vector<std::pair<int,int>>& a0, std::vector<std::pair<int,int>>& a1, const std::vector<int>& a2, const std::vector<double>& a3, const bool a4, const bool a5, const int a6) { Call c("model::geo::extrudeBoundaryLayer"); c.in(a0); c.out(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::geo { void translate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3) { Call c("model::geo::translate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::geo { void rotate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7) { Call c("model::geo::rotate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::model::geo { void dilate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6) { Call c("model::geo::dilate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::geo { void mirror(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4) { Call c("model::geo::mirror"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::geo { void symmetrize(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4) { Call c("model::geo::symmetrize"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::geo { void copy(const std::vector<std::pair<int,int>>& a0, std::vector<std::pair<int,int>>& a1) { Call c("model::geo::copy"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::geo { void remove(const std::vector<std::pair<int,int>>& a0, const bool a1) { Call c("model::geo::remove"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::geo { void removeAllDuplicates() { Call c("model::geo::removeAllDuplicates"); c.end(); } }
namespace gmsh::model::geo { void splitCurve(const int a0, const std::vector<int>& a1, std::vector<int>& a2) { Call c("model::geo::splitCurve"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::geo { int getMaxTag(const int a0) { Call c("model::geo::getMaxTag"); c.in(a0); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { void setMaxTag(const int a0, const int a1) { Call c("model::geo::setMaxTag"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::geo { int addPhysicalGroup(const int a0, const std::vector<int>& a1, const int a2, const std::string& a3) { Call c("model::geo::addPhysicalGroup"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); return c.result<int>(); } }
namespace gmsh::model::geo { void removePhysicalGroups(const std::vector<std::pair<int,int>>& a0) { Call c("model::geo::removePhysicalGroups"); c.in(a0); c.end(); } }
namespace gmsh::model::geo { void synchronize() { Call c("model::geo::synchronize"); c.end(); } }
namespace gmsh::model::geo::mesh { void setSize(const std::vector<std::pair<int,int>>& a0, const double a1) { Call c("model::geo::mesh::setSize"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::geo::mesh { void setTransfiniteCurve(const int a0, const int a1, const std::string& a2, const double a3) { Call c("model::geo::mesh::setTransfiniteCurve"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::geo::mesh { void setTransfiniteSurface(const int a0, const std::string& a1, const std::vector<int>& a2) { Call c("model::geo::mesh::setTransfiniteSurface"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::geo::mesh { void setTransfiniteVolume(const int a0, const std::vector<int>& a1) { Call c("model::geo::mesh::setTransfiniteVolume"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::geo::mesh { void setRecombine(const int a0, const int a1, const double a2) { Call c("model::geo::mesh::setRecombine"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::geo::mesh { void setSmoothing(const int a0, const int a1, const int a2) { Call c("model::geo::mesh::setSmoothing"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::geo::mesh { void setReverse(const int a0, const int a1, const bool a2) { Call c("model::geo::mesh::setReverse"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::geo::mesh { void setAlgorithm(const int a0, const int a1, const int a2) { Call c("model::geo::mesh::setAlgorithm"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::geo::mesh { void setSizeFromBoundary(const int a0, const int a1, const int a2) { Call c("model::geo::mesh::setSizeFromBoundary"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::model::occ { int addPoint(const double a0, const double a1, const double a2, const double a3, const int a4) { Call c("model::occ::addPoint"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addLine(const int a0, const int a1, const int a2) { Call c("model::occ::addLine"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addCircleArc(const int a0, const int a1, const int a2, const int a3, const bool a4) { Call c("model::occ::addCircleArc"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addCircle(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const std::vector<double>& a7, const std::vector<double>& a8) { Call c("model::occ::addCircle"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addEllipseArc(const int a0, const int a1, const int a2, const int a3, const int a4) { Call c("model::occ::addEllipseArc"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addEllipse(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const double a7, const std::vector<double>& a8, const std::vector<double>& a9) { Call c("model::occ::addEllipse"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBSpline(const std::vector<int>& a0, const int a1, const int a2, const std::vector<double>& a3, const std::vector<double>& a4, const std::vector<int>& a5) { Call c("model::occ::addBSpline"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBezier(const std::vector<int>& a0, const int a1) { Call c("model::occ::addBezier"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addWire(const std::vector<int>& a0, const int a1, const bool a2) { Call c("model::occ::addWire"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addCurveLoop(const std::vector<int>& a0, const int a1) { Call c("model::occ::addCurveLoop"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addRectangle(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6) { Call c("model::occ::addRectangle"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addDisk(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const std::vector<double>& a6, const std::vector<double>& a7) { Call c("model::occ::addDisk"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addPlaneSurface(const std::vector<int>& a0, const int a1) { Call c("model::occ::addPlaneSurface"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addSurfaceFilling(const int a0, const int a1, const std::vector<int>& a2, const int a3, const int a4, const int a5, const bool a6, const double a7, const double a8, const double a9, const double a10, const int a11, const int a12) { Call c("model::occ::addSurfaceFilling"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.in(a10); c.in(a11); c.in(a12); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBSplineFilling(const int a0, const int a1, const std::string& a2) { Call c("model::occ::addBSplineFilling"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBezierFilling(const int a0, const int a1, const std::string& a2) { Call c("model::occ::addBezierFilling"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBSplineSurface(const std::vector<int>& a0, const int a1, const int a2, const int a3, const int a4, const std::vector<double>& a5, const std::vector<double>& a6, const std::vector<double>& a7, const std::vector<int>& a8, const std::vector<int>& a9, const std::vector<int>& a10, const bool a11) { Call c("model::occ::addBSplineSurface"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.in(a10); c.in(a11); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBezierSurface(const std::vector<int>& a0, const int a1, const int a2, const std::vector<int>& a3, const bool a4) { Call c("model::occ::addBezierSurface"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addTrimmedSurface(const int a0, const std::vector<int>& a1, const bool a2, const int a3) { Call c("model::occ::addTrimmedSurface"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addSurfaceLoop(const std::vector<int>& a0, const int a1, const bool a2) { Call c("model::occ::addSurfaceLoop"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addVolume(const std::vector<int>& a0, const int a1) { Call c("model::occ::addVolume"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addSphere(const double a0, const double a1, const double a2, const double a3, const int a4, const double a5, const double a6, const double a7) { Call c("model::occ::addSphere"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6) { Call c("model::occ::addBox"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addCylinder(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const int a7, const double a8) { Call c("model::occ::addCylinder"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addCone(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, const int a8, const double a9) { Call c("model::occ::addCone"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addWedge(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, const int a6, const double a7, const std::vector<double>& a8) { Call c("model::occ::addWedge"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { int addTorus(const double a0, const double a1, const double a2, const double a3, const double a4, const int a5, const double a6, const std::vector<double>& a7) { Call c("model::occ::addTorus"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { void addThickSolid(const int a0, const std::vector<int>& a1, const double a2, std::vector<std::pair<int,int>>& a3, const int a4) { Call c("model::occ::addThickSolid"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.in(a4); c.end(); } }
namespace gmsh::model::occ { void extrude(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, std::vector<std::pair<int,int>>& a4, const std::vector<int>& a5, const std::vector<double>& a6, const bool a7) { Call c("model::occ::extrude"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::model::occ { void revolve(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7, std::vector<std::pair<int,int>>& a8, const std::vector<int>& a9, const std::vector<double>& a10, const bool a11) { Call c("model::occ::revolve"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.out(a8); c.in(a9); c.in(a10); c.in(a11); c.end(); } }
namespace gmsh::model::occ { void addPipe(const std::vector<std::pair<int,int>>& a0, const int a1, std::vector<std::pair<int,int>>& a2, const std::string& a3) { Call c("model::occ::addPipe"); c.in(a0); c.in(a1); c.out(a2); c.in(a3); c.end(); } }
namespace gmsh::model::occ { void fillet(const std::vector<int>& a0, const std::vector<int>& a1, const std::vector<double>& a2, std::vector<std::pair<int,int>>& a3, const bool a4) { Call c("model::occ::fillet"); c.in(a0); c.in(a1); c.in(a2); c.out(a3); c.in(a4); c.end(); } }
namespace gmsh::model::occ { void chamfer(const std::vector<int>& a0, const std::vector<int>& a1, const std::vector<int>& a2, const std::vector<double>& a3, std::vector<std::pair<int,int>>& a4, const bool a5) { Call c("model::occ::chamfer"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.in(a5); c.end(); } }
namespace gmsh::model::occ { void fuse(const std::vector<std::pair<int,int>>& a0, const std::vector<std::pair<int,int>>& a1, std::vector<std::pair<int,int>>& a2, std::vector<std::vector<std::pair<int,int>>>& a3, const int a4, const bool a5, const bool a6) { Call c("model::occ::fuse"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::occ { void intersect(const std::vector<std::pair<int,int>>& a0, const std::vector<std::pair<int,int>>& a1, std::vector<std::pair<int,int>>& a2, std::vector<std::vector<std::pair<int,int>>>& a3, const int a4, const bool a5, const bool a6) { Call c("model::occ::intersect"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::occ { void cut(const std::vector<std::pair<int,int>>& a0, const std::vector<std::pair<int,int>>& a1, std::vector<std::pair<int,int>>& a2, std::vector<std::vector<std::pair<int,int>>>& a3, const int a4, const bool a5, const bool a6) { Call c("model::occ::cut"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::occ { void fragment(const std::vector<std::pair<int,int>>& a0, const std::vector<std::pair<int,int>>& a1, std::vector<std::pair<int,int>>& a2, std::vector<std::vector<std::pair<int,int>>>& a3, const int a4, const bool a5, const bool a6) { Call c("model::occ::fragment"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::occ { void translate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3) { Call c("model::occ::translate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::occ { void rotate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6, const double a7) { Call c("model::occ::rotate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::model::occ { void dilate(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4, const double a5, const double a6) { Call c("model::occ::dilate"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.end(); } }
namespace gmsh::model::occ { void mirror(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4) { Call c("model::occ::mirror"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::occ { void symmetrize(const std::vector<std::pair<int,int>>& a0, const double a1, const double a2, const double a3, const double a4) { Call c("model::occ::symmetrize"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.end(); } }
namespace gmsh::model::occ { void affineTransform(const std::vector<std::pair<int,int>>& a0, const std::vector<double>& a1) { Call c("model::occ::affineTransform"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::occ { void copy(const std::vector<std::pair<int,int>>& a0, std::vector<std::pair<int,int>>& a1) { Call c("model::occ::copy"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::model::occ { void remove(const std::vector<std::pair<int,int>>& a0, const bool a1) { Call c("model::occ::remove"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::occ { void removeAllDuplicates() { Call c("model::occ::removeAllDuplicates"); c.end(); } }
namespace gmsh::model::occ { void healShapes(std::vector<std::pair<int,int>>& a0, const std::vector<std::pair<int,int>>& a1, const double a2, const bool a3, const bool a4, const bool a5, const bool a6, const bool a7) { Call c("model::occ::healShapes"); c.out(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::model::occ { void convertToNURBS(const std::vector<std::pair<int,int>>& a0) { Call c("model::occ::convertToNURBS"); c.in(a0); c.end(); } }
namespace gmsh::model::occ { void importShapes(const std::string& a0, std::vector<std::pair<int,int>>& a1, const bool a2, const std::string& a3) { Call c("model::occ::importShapes"); c.in(a0); c.out(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::model::occ { void importShapesNativePointer(const void* a0, std::vector<std::pair<int,int>>& a1, const bool a2) { Call c("model::occ::importShapesNativePointer"); c.in(a0); c.out(a1); c.in(a2); c.end(); } }
namespace gmsh::model::occ { void getEntities(std::vector<std::pair<int,int>>& a0, const int a1) { Call c("model::occ::getEntities"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::model::occ { void getEntitiesInBoundingBox(const double a0, const double a1, const double a2, const double a3, const double a4, const double a5, std::vector<std::pair<int,int>>& a6, const int a7) { Call c("model::occ::getEntitiesInBoundingBox"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.out(a6); c.in(a7); c.end(); } }
namespace gmsh::model::occ { void getBoundingBox(const int a0, const int a1, double& a2, double& a3, double& a4, double& a5, double& a6, double& a7) { Call c("model::occ::getBoundingBox"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.out(a7); c.end(); } }
namespace gmsh::model::occ { void getCurveLoops(const int a0, std::vector<int>& a1, std::vector<std::vector<int>>& a2) { Call c("model::occ::getCurveLoops"); c.in(a0); c.out(a1); c.out(a2); c.end(); } }
namespace gmsh::model::occ { void getSurfaceLoops(const int a0, std::vector<int>& a1, std::vector<std::vector<int>>& a2) { Call c("model::occ::getSurfaceLoops"); c.in(a0); c.out(a1); c.out(a2); c.end(); } }
namespace gmsh::model::occ { void getMass(const int a0, const int a1, double& a2) { Call c("model::occ::getMass"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::occ { void getCenterOfMass(const int a0, const int a1, double& a2, double& a3, double& a4) { Call c("model::occ::getCenterOfMass"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::model::occ { void getMatrixOfInertia(const int a0, const int a1, std::vector<double>& a2) { Call c("model::occ::getMatrixOfInertia"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::model::occ { int getMaxTag(const int a0) { Call c("model::occ::getMaxTag"); c.in(a0); c.end(); return c.result<int>(); } }
namespace gmsh::model::occ { void setMaxTag(const int a0, const int a1) { Call c("model::occ::setMaxTag"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::model::occ { void synchronize() { Call c("model::occ::synchronize"); c.end(); } }
namespace gmsh::model::occ::mesh { void setSize(const std::vector<std::pair<int,int>>& a0, const double a1) { Call c("model::occ::mesh::setSize"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::view { int add(const std::string& a0, const int a1) { Call c("view::add"); c.in(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::view { void remove(const int a0) { Call c("view::remove"); c.in(a0); c.end(); } }
namespace gmsh::view { int getIndex(const int a0) { Call c("view::getIndex"); c.in(a0); c.end(); return c.result<int>(); } }
namespace gmsh::view { void getTags(std::vector<int>& a0) { Call c("view::getTags"); c.out(a0); c.end(); } }
namespace gmsh::view { void addModelData(const int a0, const int a1, const std::string& a2, const std::string& a3, const std::vector<std::size_t>& a4, const std::vector<std::vector<double>>& a5, const double a6, const int a7, const int a8) { Call c("view::addModelData"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.end(); } }
namespace gmsh::view { void addHomogeneousModelData(const int a0, const int a1, const std::string& a2, const std::string& a3, const std::vector<std::size_t>& a4, const std::vector<double>& a5, const double a6, const int a7, const int a8) { Call c("view::addHomogeneousModelData"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.in(a8); c.end(); } }
namespace gmsh::view { void getModelData(const int a0, const int a1, std::string& a2, std::vector<std::size_t>& a3, std::vector<std::vector<double>>& a4, double& a5, int& a6) { Call c("view::getModelData"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.end(); } }
namespace gmsh::view { void getHomogeneousModelData(const int a0, const int a1, std::string& a2, std::vector<std::size_t>& a3, std::vector<double>& a4, double& a5, int& a6) { Call c("view::getHomogeneousModelData"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.out(a6); c.end(); } }
namespace gmsh::view { void addListData(const int a0, const std::string& a1, const int a2, const std::vector<double>& a3) { Call c("view::addListData"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::view { void getListData(const int a0, std::vector<std::string>& a1, std::vector<int>& a2, std::vector<std::vector<double>>& a3, const bool a4) { Call c("view::getListData"); c.in(a0); c.out(a1); c.out(a2); c.out(a3); c.in(a4); c.end(); } }
namespace gmsh::view { void addListDataString(const int a0, const std::vector<double>& a1, const std::vector<std::string>& a2, const std::vector<std::string>& a3) { Call c("view::addListDataString"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::view { void getListDataStrings(const int a0, const int a1, std::vector<double>& a2, std::vector<std::string>& a3, std::vector<std::string>& a4) { Call c("view::getListDataStrings"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.end(); } }
namespace gmsh::view { void setInterpolationMatrices(const int a0, const std::string& a1, const int a2, const std::vector<double>& a3, const std::vector<double>& a4, const int a5, const std::vector<double>& a6, const std::vector<double>& a7) { Call c("view::setInterpolationMatrices"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.in(a6); c.in(a7); c.end(); } }
namespace gmsh::view { int addAlias(const int a0, const bool a1, const int a2) { Call c("view::addAlias"); c.in(a0); c.in(a1); c.in(a2); c.end(); return c.result<int>(); } }
namespace gmsh::view { void combine(const std::string& a0, const std::string& a1, const bool a2, const bool a3) { Call c("view::combine"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.end(); } }
namespace gmsh::view { void probe(const int a0, const double a1, const double a2, const double a3, std::vector<double>& a4, double& a5, const int a6, const int a7, const bool a8, const double a9, const std::vector<double>& a10, const std::vector<double>& a11, const std::vector<double>& a12, const int a13) { Call c("view::probe"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.out(a4); c.out(a5); c.in(a6); c.in(a7); c.in(a8); c.in(a9); c.in(a10); c.in(a11); c.in(a12); c.in(a13); c.end(); } }
namespace gmsh::view { void write(const int a0, const std::string& a1, const bool a2) { Call c("view::write"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::view { void setVisibilityPerWindow(const int a0, const int a1, const int a2) { Call c("view::setVisibilityPerWindow"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::view::option { void setNumber(const int a0, const std::string& a1, const double a2) { Call c("view::option::setNumber"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::view::option { void getNumber(const int a0, const std::string& a1, double& a2) { Call c("view::option::getNumber"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::view::option { void setString(const int a0, const std::string& a1, const std::string& a2) { Call c("view::option::setString"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::view::option { void getString(const int a0, const std::string& a1, std::string& a2) { Call c("view::option::getString"); c.in(a0); c.in(a1); c.out(a2); c.end(); } }
namespace gmsh::view::option { void setColor(const int a0, const std::string& a1, const int a2, const int a3, const int a4, const int a5) { Call c("view::option::setColor"); c.in(a0); c.in(a1); c.in(a2); c.in(a3); c.in(a4); c.in(a5); c.end(); } }
namespace gmsh::view::option { void getColor(const int a0, const std::string& a1, int& a2, int& a3, int& a4, int& a5) { Call c("view::option::getColor"); c.in(a0); c.in(a1); c.out(a2); c.out(a3); c.out(a4); c.out(a5); c.end(); } }
namespace gmsh::view::option { void copy(const int a0, const int a1) { Call c("view::option::copy"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::plugin { void setNumber(const std::string& a0, const std::string& a1, const double a2) { Call c("plugin::setNumber"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::plugin { void setString(const std::string& a0, const std::string& a1, const std::string& a2) { Call c("plugin::setString"); c.in(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::plugin { int run(const std::string& a0) { Call c("plugin::run"); c.in(a0); c.end(); return c.result<int>(); } }
namespace gmsh::graphics { void draw() { Call c("graphics::draw"); c.end(); } }
namespace gmsh::fltk { void initialize() { Call c("fltk::initialize"); c.end(); } }
namespace gmsh::fltk { void finalize() { Call c("fltk::finalize"); c.end(); } }
namespace gmsh::fltk { void wait(const double a0) { Call c("fltk::wait"); c.in(a0); c.end(); } }
namespace gmsh::fltk { void update() { Call c("fltk::update"); c.end(); } }
namespace gmsh::fltk { void awake(const std::string& a0) { Call c("fltk::awake"); c.in(a0); c.end(); } }
namespace gmsh::fltk { void lock() { Call c("fltk::lock"); c.end(); } }
namespace gmsh::fltk { void unlock() { Call c("fltk::unlock"); c.end(); } }
namespace gmsh::fltk { void run() { Call c("fltk::run"); c.end(); } }
namespace gmsh::fltk { int isAvailable() { Call c("fltk::isAvailable"); c.end(); return c.result<int>(); } }
namespace gmsh::fltk { int selectEntities(std::vector<std::pair<int,int>>& a0, const int a1) { Call c("fltk::selectEntities"); c.out(a0); c.in(a1); c.end(); return c.result<int>(); } }
namespace gmsh::fltk { int selectElements(std::vector<std::size_t>& a0) { Call c("fltk::selectElements"); c.out(a0); c.end(); return c.result<int>(); } }
namespace gmsh::fltk { int selectViews(std::vector<int>& a0) { Call c("fltk::selectViews"); c.out(a0); c.end(); return c.result<int>(); } }
namespace gmsh::fltk { void splitCurrentWindow(const std::string& a0, const double a1) { Call c("fltk::splitCurrentWindow"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::fltk { void setCurrentWindow(const int a0) { Call c("fltk::setCurrentWindow"); c.in(a0); c.end(); } }
namespace gmsh::fltk { void setStatusMessage(const std::string& a0, const bool a1) { Call c("fltk::setStatusMessage"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::fltk { void showContextWindow(const int a0, const int a1) { Call c("fltk::showContextWindow"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::fltk { void openTreeItem(const std::string& a0) { Call c("fltk::openTreeItem"); c.in(a0); c.end(); } }
namespace gmsh::fltk { void closeTreeItem(const std::string& a0) { Call c("fltk::closeTreeItem"); c.in(a0); c.end(); } }
namespace gmsh::parser { void getNames(std::vector<std::string>& a0, const std::string& a1) { Call c("parser::getNames"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::parser { void setNumber(const std::string& a0, const std::vector<double>& a1) { Call c("parser::setNumber"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::parser { void setString(const std::string& a0, const std::vector<std::string>& a1) { Call c("parser::setString"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::parser { void getNumber(const std::string& a0, std::vector<double>& a1) { Call c("parser::getNumber"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::parser { void getString(const std::string& a0, std::vector<std::string>& a1) { Call c("parser::getString"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::parser { void clear(const std::string& a0) { Call c("parser::clear"); c.in(a0); c.end(); } }
namespace gmsh::parser { void parse(const std::string& a0) { Call c("parser::parse"); c.in(a0); c.end(); } }
namespace gmsh::onelab { void set(const std::string& a0, const std::string& a1) { Call c("onelab::set"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::onelab { void get(std::string& a0, const std::string& a1, const std::string& a2) { Call c("onelab::get"); c.out(a0); c.in(a1); c.in(a2); c.end(); } }
namespace gmsh::onelab { void getNames(std::vector<std::string>& a0, const std::string& a1) { Call c("onelab::getNames"); c.out(a0); c.in(a1); c.end(); } }
namespace gmsh::onelab { void setNumber(const std::string& a0, const std::vector<double>& a1) { Call c("onelab::setNumber"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::onelab { void setString(const std::string& a0, const std::vector<std::string>& a1) { Call c("onelab::setString"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::onelab { void getNumber(const std::string& a0, std::vector<double>& a1) { Call c("onelab::getNumber"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::onelab { void getString(const std::string& a0, std::vector<std::string>& a1) { Call c("onelab::getString"); c.in(a0); c.out(a1); c.end(); } }
namespace gmsh::onelab { int getChanged(const std::string& a0) { Call c("onelab::getChanged"); c.in(a0); c.end(); return c.result<int>(); } }
namespace gmsh::onelab { void setChanged(const std::string& a0, const int a1) { Call c("onelab::setChanged"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::onelab { void clear(const std::string& a0) { Call c("onelab::clear"); c.in(a0); c.end(); } }
namespace gmsh::onelab { void run(const std::string& a0, const std::string& a1) { Call c("onelab::run"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::logger { void write(const std::string& a0, const std::string& a1) { Call c("logger::write"); c.in(a0); c.in(a1); c.end(); } }
namespace gmsh::logger { void start() { Call c("logger::start"); c.end(); } }
namespace gmsh::logger { void get(std::vector<std::string>& a0) { Call c("logger::get"); c.out(a0); c.end(); } }
namespace gmsh::logger { void stop() { Call c("logger::stop"); c.end(); } }
namespace gmsh::logger { double getWallTime() { Call c("logger::getWallTime"); c.end(); return c.result<double>(); } }
namespace gmsh::logger { double getCpuTime() { Call c("logger::getCpuTime"); c.end(); return c.result<double>(); } }
namespace gmsh::logger { void getLastError(std::string& a0) { Call c("logger::getLastError"); c.out(a0); c.end(); } }
static Entry const TABLE[] = {
  {"initialize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::initialize()); } else { (um2::gmsh::initialize()); }  }},
  {"initialize", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::initialize(a0)); } else { (um2::gmsh::initialize(a0)); }  }},
  {"initialize", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<char**>(1); if (direct) { (::gmsh::initialize(a0, a1)); } else { (um2::gmsh::initialize(a0, a1)); }  }},
  {"initialize", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<char**>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::initialize(a0, a1, a2)); } else { (um2::gmsh::initialize(a0, a1, a2)); }  }},
  {"initialize", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<char**>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); if (direct) { (::gmsh::initialize(a0, a1, a2, a3)); } else { (um2::gmsh::initialize(a0, a1, a2, a3)); }  }},
  {"isInitialized", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::isInitialized()); } else { g.see(um2::gmsh::isInitialized()); }  }},
  {"finalize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::finalize()); } else { (um2::gmsh::finalize()); }  }},
  {"open", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::open(a0)); } else { (um2::gmsh::open(a0)); }  }},
  {"merge", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::merge(a0)); } else { (um2::gmsh::merge(a0)); }  }},
  {"write", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::write(a0)); } else { (um2::gmsh::write(a0)); }  }},
  {"clear", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::clear()); } else { (um2::gmsh::clear()); }  }},
  {"option::setNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::option::setNumber(a0, a1)); } else { (um2::gmsh::option::setNumber(a0, a1)); }  }},
  {"option::getNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::option::getNumber(a0, a1)); } else { (um2::gmsh::option::getNumber(a0, a1)); } g.see(a1); }},
  {"option::setString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::option::setString(a0, a1)); } else { (um2::gmsh::option::setString(a0, a1)); }  }},
  {"option::getString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::option::getString(a0, a1)); } else { (um2::gmsh::option::getString(a0, a1)); } g.see(a1); }},
  {"option::setColor", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::option::setColor(a0, a1, a2, a3)); } else { (um2::gmsh::option::setColor(a0, a1, a2, a3)); }  }},
  {"option::setColor", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::option::setColor(a0, a1, a2, a3, a4)); } else { (um2::gmsh::option::setColor(a0, a1, a2, a3, a4)); }  }},
  {"option::getColor", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::option::getColor(a0, a1, a2, a3, a4)); } else { (um2::gmsh::option::getColor(a0, a1, a2, a3, a4)); } g.see(a1); g.see(a2); g.see(a3); g.see(a4); }},
  {"model::add", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::add(a0)); } else { (um2::gmsh::model::add(a0)); }  }},
  {"model::remove", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::remove()); } else { (um2::gmsh::model::remove()); }  }},
  {"model::list", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); if (direct) { (::gmsh::model::list(a0)); } else { (um2::gmsh::model::list(a0)); } g.see(a0); }},
  {"model::getCurrent", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::getCurrent(a0)); } else { (um2::gmsh::model::getCurrent(a0)); } g.see(a0); }},
  {"model::setCurrent", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::setCurrent(a0)); } else { (um2::gmsh::model::setCurrent(a0)); }  }},
  {"model::getFileName", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::getFileName(a0)); } else { (um2::gmsh::model::getFileName(a0)); } g.see(a0); }},
  {"model::setFileName", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::setFileName(a0)); } else { (um2::gmsh::model::setFileName(a0)); }  }},
  {"model::getEntities", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::getEntities(a0)); } else { (um2::gmsh::model::getEntities(a0)); } g.see(a0); }},
  {"model::getEntities", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::getEntities(a0, a1)); } else { (um2::gmsh::model::getEntities(a0, a1)); } g.see(a0); }},
  {"model::setEntityName", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::setEntityName(a0, a1, a2)); } else { (um2::gmsh::model::setEntityName(a0, a1, a2)); }  }},
  {"model::getEntityName", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::getEntityName(a0, a1, a2)); } else { (um2::gmsh::model::getEntityName(a0, a1, a2)); } g.see(a2); }},
  {"model::removeEntityName", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::removeEntityName(a0)); } else { (um2::gmsh::model::removeEntityName(a0)); }  }},
  {"model::getPhysicalGroups", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::getPhysicalGroups(a0)); } else { (um2::gmsh::model::getPhysicalGroups(a0)); } g.see(a0); }},
  {"model::getPhysicalGroups", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::getPhysicalGroups(a0, a1)); } else { (um2::gmsh::model::getPhysicalGroups(a0, a1)); } g.see(a0); }},
  {"model::getEntitiesForPhysicalGroup", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2)); } else { (um2::gmsh::model::getEntitiesForPhysicalGroup(a0, a1, a2)); } g.see(a2); }},
  {"model::getPhysicalGroupsForEntity", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2)); } else { (um2::gmsh::model::getPhysicalGroupsForEntity(a0, a1, a2)); } g.see(a2); }},
  {"model::addPhysicalGroup", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { g.see(::gmsh::model::addPhysicalGroup(a0, a1)); } else { g.see(um2::gmsh::model::addPhysicalGroup(a0, a1)); }  }},
  {"model::addPhysicalGroup", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::addPhysicalGroup(a0, a1, a2)); } else { g.see(um2::gmsh::model::addPhysicalGroup(a0, a1, a2)); }  }},
  {"model::addPhysicalGroup", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::string>(3); if (direct) { g.see(::gmsh::model::addPhysicalGroup(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::addPhysicalGroup(a0, a1, a2, a3)); }  }},
  {"model::removePhysicalGroups", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::removePhysicalGroups()); } else { (um2::gmsh::model::removePhysicalGroups()); }  }},
  {"model::removePhysicalGroups", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::removePhysicalGroups(a0)); } else { (um2::gmsh::model::removePhysicalGroups(a0)); }  }},
  {"model::setPhysicalName", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::setPhysicalName(a0, a1, a2)); } else { (um2::gmsh::model::setPhysicalName(a0, a1, a2)); }  }},
  {"model::getPhysicalName", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::getPhysicalName(a0, a1, a2)); } else { (um2::gmsh::model::getPhysicalName(a0, a1, a2)); } g.see(a2); }},
  {"model::removePhysicalName", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::removePhysicalName(a0)); } else { (um2::gmsh::model::removePhysicalName(a0)); }  }},
  {"model::setTag", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::setTag(a0, a1, a2)); } else { (um2::gmsh::model::setTag(a0, a1, a2)); }  }},
  {"model::getBoundary", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::getBoundary(a0, a1)); } else { (um2::gmsh::model::getBoundary(a0, a1)); } g.see(a1); }},
  {"model::getBoundary", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::getBoundary(a0, a1, a2)); } else { (um2::gmsh::model::getBoundary(a0, a1, a2)); } g.see(a1); }},
  {"model::getBoundary", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); if (direct) { (::gmsh::model::getBoundary(a0, a1, a2, a3)); } else { (um2::gmsh::model::getBoundary(a0, a1, a2, a3)); } g.see(a1); }},
  {"model::getBoundary", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::getBoundary(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::getBoundary(a0, a1, a2, a3, a4)); } g.see(a1); }},
  {"model::getAdjacencies", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<int>>(3); if (direct) { (::gmsh::model::getAdjacencies(a0, a1, a2, a3)); } else { (um2::gmsh::model::getAdjacencies(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::getEntitiesInBoundingBox", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<std::vector<std::pair<int,int>>>(6); if (direct) { (::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6)); } g.see(a6); }},
  {"model::getEntitiesInBoundingBox", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<std::vector<std::pair<int,int>>>(6); auto a7 = g.make<int>(7); if (direct) { (::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a6); }},
  {"model::getBoundingBox", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { (::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); }},
  {"model::getDimension", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::model::getDimension()); } else { g.see(um2::gmsh::model::getDimension()); }  }},
  {"model::addDiscreteEntity", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::addDiscreteEntity(a0)); } else { g.see(um2::gmsh::model::addDiscreteEntity(a0)); }  }},
  {"model::addDiscreteEntity", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::addDiscreteEntity(a0, a1)); } else { g.see(um2::gmsh::model::addDiscreteEntity(a0, a1)); }  }},
  {"model::addDiscreteEntity", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { g.see(::gmsh::model::addDiscreteEntity(a0, a1, a2)); } else { g.see(um2::gmsh::model::addDiscreteEntity(a0, a1, a2)); }  }},
  {"model::removeEntities", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::removeEntities(a0)); } else { (um2::gmsh::model::removeEntities(a0)); }  }},
  {"model::removeEntities", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::removeEntities(a0, a1)); } else { (um2::gmsh::model::removeEntities(a0, a1)); }  }},
  {"model::getType", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::getType(a0, a1, a2)); } else { (um2::gmsh::model::getType(a0, a1, a2)); } g.see(a2); }},
  {"model::getParent", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::getParent(a0, a1, a2, a3)); } else { (um2::gmsh::model::getParent(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::getNumberOfPartitions", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::model::getNumberOfPartitions()); } else { g.see(um2::gmsh::model::getNumberOfPartitions()); }  }},
  {"model::getPartitions", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::getPartitions(a0, a1, a2)); } else { (um2::gmsh::model::getPartitions(a0, a1, a2)); } g.see(a2); }},
  {"model::getValue", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getValue(a0, a1, a2, a3)); } else { (um2::gmsh::model::getValue(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::getDerivative", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getDerivative(a0, a1, a2, a3)); } else { (um2::gmsh::model::getDerivative(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::getSecondDerivative", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getSecondDerivative(a0, a1, a2, a3)); } else { (um2::gmsh::model::getSecondDerivative(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::getCurvature", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getCurvature(a0, a1, a2, a3)); } else { (um2::gmsh::model::getCurvature(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::getPrincipalCurvatures", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<std::vector<double>>(5); if (direct) { (::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::getPrincipalCurvatures(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); }},
  {"model::getNormal", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::getNormal(a0, a1, a2)); } else { (um2::gmsh::model::getNormal(a0, a1, a2)); } g.see(a2); }},
  {"model::getParametrization", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getParametrization(a0, a1, a2, a3)); } else { (um2::gmsh::model::getParametrization(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::getParametrizationBounds", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::getParametrizationBounds(a0, a1, a2, a3)); } else { (um2::gmsh::model::getParametrizationBounds(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::isInside", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { g.see(::gmsh::model::isInside(a0, a1, a2)); } else { g.see(um2::gmsh::model::isInside(a0, a1, a2)); }  }},
  {"model::isInside", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<bool>(3); if (direct) { g.see(::gmsh::model::isInside(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::isInside(a0, a1, a2, a3)); }  }},
  {"model::getClosestPoint", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::getClosestPoint(a0, a1, a2, a3, a4)); } g.see(a3); g.see(a4); }},
  {"model::reparametrizeOnSurface", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4)); } g.see(a4); }},
  {"model::reparametrizeOnSurface", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::reparametrizeOnSurface(a0, a1, a2, a3, a4, a5)); } g.see(a4); }},
  {"model::setVisibility", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::setVisibility(a0, a1)); } else { (um2::gmsh::model::setVisibility(a0, a1)); }  }},
  {"model::setVisibility", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::setVisibility(a0, a1, a2)); } else { (um2::gmsh::model::setVisibility(a0, a1, a2)); }  }},
  {"model::getVisibility", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::getVisibility(a0, a1, a2)); } else { (um2::gmsh::model::getVisibility(a0, a1, a2)); } g.see(a2); }},
  {"model::setVisibilityPerWindow", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::setVisibilityPerWindow(a0)); } else { (um2::gmsh::model::setVisibilityPerWindow(a0)); }  }},
  {"model::setVisibilityPerWindow", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::setVisibilityPerWindow(a0, a1)); } else { (um2::gmsh::model::setVisibilityPerWindow(a0, a1)); }  }},
  {"model::setColor", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::setColor(a0, a1, a2, a3)); } else { (um2::gmsh::model::setColor(a0, a1, a2, a3)); }  }},
  {"model::setColor", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::setColor(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::setColor(a0, a1, a2, a3, a4)); }  }},
  {"model::setColor", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::setColor(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::setColor(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::getColor", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::getColor(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::getColor(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); }},
  {"model::setCoordinates", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::setCoordinates(a0, a1, a2, a3)); } else { (um2::gmsh::model::setCoordinates(a0, a1, a2, a3)); }  }},
  {"model::mesh::generate", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::generate()); } else { (um2::gmsh::model::mesh::generate()); }  }},
  {"model::mesh::generate", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::generate(a0)); } else { (um2::gmsh::model::mesh::generate(a0)); }  }},
  {"model::mesh::partition", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::partition(a0)); } else { (um2::gmsh::model::mesh::partition(a0)); }  }},
  {"model::mesh::partition", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::partition(a0, a1)); } else { (um2::gmsh::model::mesh::partition(a0, a1)); }  }},
  {"model::mesh::partition", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::partition(a0, a1, a2)); } else { (um2::gmsh::model::mesh::partition(a0, a1, a2)); }  }},
  {"model::mesh::unpartition", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::unpartition()); } else { (um2::gmsh::model::mesh::unpartition()); }  }},
  {"model::mesh::optimize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::optimize()); } else { (um2::gmsh::model::mesh::optimize()); }  }},
  {"model::mesh::optimize", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::mesh::optimize(a0)); } else { (um2::gmsh::model::mesh::optimize(a0)); }  }},
  {"model::mesh::optimize", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::mesh::optimize(a0, a1)); } else { (um2::gmsh::model::mesh::optimize(a0, a1)); }  }},
  {"model::mesh::optimize", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::optimize(a0, a1, a2)); } else { (um2::gmsh::model::mesh::optimize(a0, a1, a2)); }  }},
  {"model::mesh::optimize", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<std::pair<int,int>>>(3); if (direct) { (::gmsh::model::mesh::optimize(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::optimize(a0, a1, a2, a3)); }  }},
  {"model::mesh::recombine", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::recombine()); } else { (um2::gmsh::model::mesh::recombine()); }  }},
  {"model::mesh::refine", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::refine()); } else { (um2::gmsh::model::mesh::refine()); }  }},
  {"model::mesh::setOrder", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::setOrder(a0)); } else { (um2::gmsh::model::mesh::setOrder(a0)); }  }},
  {"model::mesh::getLastEntityError", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::getLastEntityError(a0)); } else { (um2::gmsh::model::mesh::getLastEntityError(a0)); } g.see(a0); }},
  {"model::mesh::getLastNodeError", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); if (direct) { (::gmsh::model::mesh::getLastNodeError(a0)); } else { (um2::gmsh::model::mesh::getLastNodeError(a0)); } g.see(a0); }},
  {"model::mesh::clear", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::clear()); } else { (um2::gmsh::model::mesh::clear()); }  }},
  {"model::mesh::clear", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::clear(a0)); } else { (um2::gmsh::model::mesh::clear(a0)); }  }},
  {"model::mesh::reverse", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::reverse()); } else { (um2::gmsh::model::mesh::reverse()); }  }},
  {"model::mesh::reverse", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::reverse(a0)); } else { (um2::gmsh::model::mesh::reverse(a0)); }  }},
  {"model::mesh::affineTransform", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<double>>(0); if (direct) { (::gmsh::model::mesh::affineTransform(a0)); } else { (um2::gmsh::model::mesh::affineTransform(a0)); }  }},
  {"model::mesh::affineTransform", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<double>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::mesh::affineTransform(a0, a1)); } else { (um2::gmsh::model::mesh::affineTransform(a0, a1)); }  }},
  {"model::mesh::getNodes", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::mesh::getNodes(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getNodes(a0, a1, a2)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getNodes", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::getNodes(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getNodes", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getNodes", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getNodes", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getNodes(a0, a1, a2, a3, a4, a5, a6)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getNodesByElementType", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3)); } g.see(a1); g.see(a2); g.see(a3); }},
  {"model::mesh::getNodesByElementType", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4)); } g.see(a1); g.see(a2); g.see(a3); }},
  {"model::mesh::getNodesByElementType", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getNodesByElementType(a0, a1, a2, a3, a4, a5)); } g.see(a1); g.see(a2); g.see(a3); }},
  {"model::mesh::getNode", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getNode(a0, a1, a2, a3, a4)); } g.see(a1); g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::setNode", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::mesh::setNode(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setNode(a0, a1, a2)); }  }},
  {"model::mesh::rebuildNodeCache", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::rebuildNodeCache()); } else { (um2::gmsh::model::mesh::rebuildNodeCache()); }  }},
  {"model::mesh::rebuildNodeCache", 1, [](Gen & g, bool direct) { auto a0 = g.make<bool>(0); if (direct) { (::gmsh::model::mesh::rebuildNodeCache(a0)); } else { (um2::gmsh::model::mesh::rebuildNodeCache(a0)); }  }},
  {"model::mesh::rebuildElementCache", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::rebuildElementCache()); } else { (um2::gmsh::model::mesh::rebuildElementCache()); }  }},
  {"model::mesh::rebuildElementCache", 1, [](Gen & g, bool direct) { auto a0 = g.make<bool>(0); if (direct) { (::gmsh::model::mesh::rebuildElementCache(a0)); } else { (um2::gmsh::model::mesh::rebuildElementCache(a0)); }  }},
  {"model::mesh::getNodesForPhysicalGroup", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getNodesForPhysicalGroup(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::mesh::getMaxNodeTag", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); if (direct) { (::gmsh::model::mesh::getMaxNodeTag(a0)); } else { (um2::gmsh::model::mesh::getMaxNodeTag(a0)); } g.see(a0); }},
  {"model::mesh::addNodes", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::addNodes(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3)); }  }},
  {"model::mesh::addNodes", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::addNodes(a0, a1, a2, a3, a4)); }  }},
  {"model::mesh::reclassifyNodes", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::reclassifyNodes()); } else { (um2::gmsh::model::mesh::reclassifyNodes()); }  }},
  {"model::mesh::relocateNodes", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::relocateNodes()); } else { (um2::gmsh::model::mesh::relocateNodes()); }  }},
  {"model::mesh::relocateNodes", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::relocateNodes(a0)); } else { (um2::gmsh::model::mesh::relocateNodes(a0)); }  }},
  {"model::mesh::relocateNodes", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::relocateNodes(a0, a1)); } else { (um2::gmsh::model::mesh::relocateNodes(a0, a1)); }  }},
  {"model::mesh::getElements", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<std::vector<std::size_t>>>(1); auto a2 = g.make<std::vector<std::vector<std::size_t>>>(2); if (direct) { (::gmsh::model::mesh::getElements(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElements(a0, a1, a2)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getElements", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<std::vector<std::size_t>>>(1); auto a2 = g.make<std::vector<std::vector<std::size_t>>>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::getElements(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElements(a0, a1, a2, a3)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getElements", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<std::vector<std::size_t>>>(1); auto a2 = g.make<std::vector<std::vector<std::size_t>>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElements(a0, a1, a2, a3, a4)); } g.see(a0); g.see(a1); g.see(a2); }},
  {"model::mesh::getElement", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElement(a0, a1, a2, a3, a4)); } g.see(a1); g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getElementByCoordinates", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::size_t>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<std::size_t>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); if (direct) { (::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); g.see(a8); }},
  {"model::mesh::getElementByCoordinates", 10, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::size_t>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<std::size_t>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<int>(9); if (direct) { (::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { (um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); g.see(a8); }},
  {"model::mesh::getElementByCoordinates", 11, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::size_t>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<std::size_t>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<int>(9); auto a10 = g.make<bool>(10); if (direct) { (::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { (um2::gmsh::model::mesh::getElementByCoordinates(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); g.see(a8); }},
  {"model::mesh::getElementsByCoordinates", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::vector<std::size_t>>(3); if (direct) { (::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::mesh::getElementsByCoordinates", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4)); } g.see(a3); }},
  {"model::mesh::getElementsByCoordinates", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getElementsByCoordinates(a0, a1, a2, a3, a4, a5)); } g.see(a3); }},
  {"model::mesh::getLocalCoordinatesInElement", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { (::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getLocalCoordinatesInElement(a0, a1, a2, a3, a4, a5, a6)); } g.see(a4); g.see(a5); g.see(a6); }},
  {"model::mesh::getElementTypes", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { (::gmsh::model::mesh::getElementTypes(a0)); } else { (um2::gmsh::model::mesh::getElementTypes(a0)); } g.see(a0); }},
  {"model::mesh::getElementTypes", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::getElementTypes(a0, a1)); } else { (um2::gmsh::model::mesh::getElementTypes(a0, a1)); } g.see(a0); }},
  {"model::mesh::getElementTypes", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::getElementTypes(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElementTypes(a0, a1, a2)); } g.see(a0); }},
  {"model::mesh::getElementType", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::mesh::getElementType(a0, a1)); } else { g.see(um2::gmsh::model::mesh::getElementType(a0, a1)); }  }},
  {"model::mesh::getElementType", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { g.see(::gmsh::model::mesh::getElementType(a0, a1, a2)); } else { g.see(um2::gmsh::model::mesh::getElementType(a0, a1, a2)); }  }},
  {"model::mesh::getElementProperties", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<int>(6); if (direct) { (::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getElementProperties(a0, a1, a2, a3, a4, a5, a6)); } g.see(a1); g.see(a2); g.see(a3); g.see(a4); g.see(a5); g.see(a6); }},
  {"model::mesh::getElementsByType", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); if (direct) { (::gmsh::model::mesh::getElementsByType(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElementsByType(a0, a1, a2)); } g.see(a1); g.see(a2); }},
  {"model::mesh::getElementsByType", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3)); } g.see(a1); g.see(a2); }},
  {"model::mesh::getElementsByType", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::size_t>(4); if (direct) { (::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4)); } g.see(a1); g.see(a2); }},
  {"model::mesh::getElementsByType", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::size_t>(4); auto a5 = g.make<std::size_t>(5); if (direct) { (::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getElementsByType(a0, a1, a2, a3, a4, a5)); } g.see(a1); g.see(a2); }},
  {"model::mesh::getMaxElementTag", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); if (direct) { (::gmsh::model::mesh::getMaxElementTag(a0)); } else { (um2::gmsh::model::mesh::getMaxElementTag(a0)); } g.see(a0); }},
  {"model::mesh::preallocateElementsByType", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<std::size_t>>(4); if (direct) { (::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4)); } g.see(a3); g.see(a4); }},
  {"model::mesh::preallocateElementsByType", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::preallocateElementsByType(a0, a1, a2, a3, a4, a5)); } g.see(a3); g.see(a4); }},
  {"model::mesh::getElementQualities", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::model::mesh::getElementQualities(a0, a1)); } else { (um2::gmsh::model::mesh::getElementQualities(a0, a1)); } g.see(a1); }},
  {"model::mesh::getElementQualities", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::mesh::getElementQualities(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElementQualities(a0, a1, a2)); } g.see(a1); }},
  {"model::mesh::getElementQualities", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::size_t>(3); if (direct) { (::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3)); } g.see(a1); }},
  {"model::mesh::getElementQualities", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::size_t>(3); auto a4 = g.make<std::size_t>(4); if (direct) { (::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElementQualities(a0, a1, a2, a3, a4)); } g.see(a1); }},
  {"model::mesh::addElements", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::vector<std::size_t>>>(3); auto a4 = g.make<std::vector<std::vector<std::size_t>>>(4); if (direct) { (::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::addElements(a0, a1, a2, a3, a4)); }  }},
  {"model::mesh::addElementsByType", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); if (direct) { (::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::addElementsByType(a0, a1, a2, a3)); }  }},
  {"model::mesh::getIntegrationPoints", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getIntegrationPoints(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::mesh::getJacobians", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getJacobians", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getJacobians", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::size_t>(6); if (direct) { (::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getJacobians", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::size_t>(6); auto a7 = g.make<std::size_t>(7); if (direct) { (::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::mesh::getJacobians(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::preallocateJacobians", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { (::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a5); g.see(a6); g.see(a7); }},
  {"model::mesh::preallocateJacobians", 9, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<int>(8); if (direct) { (::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::model::mesh::preallocateJacobians(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } g.see(a5); g.see(a6); g.see(a7); }},
  {"model::mesh::getJacobian", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getJacobian(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getBasisFunctions", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5)); } g.see(a3); g.see(a4); g.see(a5); }},
  {"model::mesh::getBasisFunctions", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::vector<int>>(6); if (direct) { (::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getBasisFunctions(a0, a1, a2, a3, a4, a5, a6)); } g.see(a3); g.see(a4); g.see(a5); }},
  {"model::mesh::getBasisFunctionsOrientation", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::getBasisFunctionsOrientation", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3)); } g.see(a2); }},
  {"model::mesh::getBasisFunctionsOrientation", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::size_t>(4); if (direct) { (::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4)); } g.see(a2); }},
  {"model::mesh::getBasisFunctionsOrientation", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::size_t>(4); auto a5 = g.make<std::size_t>(5); if (direct) { (::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getBasisFunctionsOrientation(a0, a1, a2, a3, a4, a5)); } g.see(a2); }},
  {"model::mesh::getBasisFunctionsOrientationForElement", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getBasisFunctionsOrientationForElement(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::getNumberOfOrientations", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { g.see(::gmsh::model::mesh::getNumberOfOrientations(a0, a1)); } else { g.see(um2::gmsh::model::mesh::getNumberOfOrientations(a0, a1)); }  }},
  {"model::mesh::preallocateBasisFunctionsOrientation", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1)); } else { (um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1)); } g.see(a1); }},
  {"model::mesh::preallocateBasisFunctionsOrientation", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2)); } else { (um2::gmsh::model::mesh::preallocateBasisFunctionsOrientation(a0, a1, a2)); } g.see(a1); }},
  {"model::mesh::getEdges", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::getEdges(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getEdges(a0, a1, a2)); } g.see(a1); g.see(a2); }},
  {"model::mesh::getFaces", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<int>>(3); if (direct) { (::gmsh::model::mesh::getFaces(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getFaces(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::mesh::createEdges", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::createEdges()); } else { (um2::gmsh::model::mesh::createEdges()); }  }},
  {"model::mesh::createEdges", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::createEdges(a0)); } else { (um2::gmsh::model::mesh::createEdges(a0)); }  }},
  {"model::mesh::createFaces", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::createFaces()); } else { (um2::gmsh::model::mesh::createFaces()); }  }},
  {"model::mesh::createFaces", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::createFaces(a0)); } else { (um2::gmsh::model::mesh::createFaces(a0)); }  }},
  {"model::mesh::getAllEdges", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::getAllEdges(a0, a1)); } else { (um2::gmsh::model::mesh::getAllEdges(a0, a1)); } g.see(a0); g.see(a1); }},
  {"model::mesh::getAllFaces", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); if (direct) { (::gmsh::model::mesh::getAllFaces(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getAllFaces(a0, a1, a2)); } g.see(a1); g.see(a2); }},
  {"model::mesh::addEdges", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::addEdges(a0, a1)); } else { (um2::gmsh::model::mesh::addEdges(a0, a1)); }  }},
  {"model::mesh::addFaces", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<std::vector<std::size_t>>(2); if (direct) { (::gmsh::model::mesh::addFaces(a0, a1, a2)); } else { (um2::gmsh::model::mesh::addFaces(a0, a1, a2)); }  }},
  {"model::mesh::getKeys", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getKeys", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getKeys", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getKeys(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getKeysForElement", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getKeysForElement", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::size_t>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getKeysForElement(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::mesh::getNumberOfKeys", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { g.see(::gmsh::model::mesh::getNumberOfKeys(a0, a1)); } else { g.see(um2::gmsh::model::mesh::getNumberOfKeys(a0, a1)); }  }},
  {"model::mesh::getKeysInformation", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); if (direct) { (::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getKeysInformation(a0, a1, a2, a3, a4)); } g.see(a4); }},
  {"model::mesh::getBarycenters", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4)); } g.see(a4); }},
  {"model::mesh::getBarycenters", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<std::size_t>(5); if (direct) { (::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5)); } g.see(a4); }},
  {"model::mesh::getBarycenters", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<std::size_t>(5); auto a6 = g.make<std::size_t>(6); if (direct) { (::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getBarycenters(a0, a1, a2, a3, a4, a5, a6)); } g.see(a4); }},
  {"model::mesh::preallocateBarycenters", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::model::mesh::preallocateBarycenters(a0, a1)); } else { (um2::gmsh::model::mesh::preallocateBarycenters(a0, a1)); } g.see(a1); }},
  {"model::mesh::preallocateBarycenters", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2)); } else { (um2::gmsh::model::mesh::preallocateBarycenters(a0, a1, a2)); } g.see(a1); }},
  {"model::mesh::getElementEdgeNodes", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::getElementEdgeNodes(a0, a1)); } else { (um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1)); } g.see(a1); }},
  {"model::mesh::getElementEdgeNodes", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2)); } g.see(a1); }},
  {"model::mesh::getElementEdgeNodes", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<bool>(3); if (direct) { (::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3)); } g.see(a1); }},
  {"model::mesh::getElementEdgeNodes", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<std::size_t>(4); if (direct) { (::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4)); } g.see(a1); }},
  {"model::mesh::getElementEdgeNodes", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::size_t>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<std::size_t>(4); auto a5 = g.make<std::size_t>(5); if (direct) { (::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getElementEdgeNodes(a0, a1, a2, a3, a4, a5)); } g.see(a1); }},
  {"model::mesh::getElementFaceNodes", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); if (direct) { (::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::getElementFaceNodes", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3)); } g.see(a2); }},
  {"model::mesh::getElementFaceNodes", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4)); } g.see(a2); }},
  {"model::mesh::getElementFaceNodes", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<std::size_t>(5); if (direct) { (::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5)); } g.see(a2); }},
  {"model::mesh::getElementFaceNodes", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<std::size_t>(5); auto a6 = g.make<std::size_t>(6); if (direct) { (::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getElementFaceNodes(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); }},
  {"model::mesh::getGhostElements", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); auto a3 = g.make<std::vector<int>>(3); if (direct) { (::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::getGhostElements(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::mesh::setSize", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::model::mesh::setSize(a0, a1)); } else { (um2::gmsh::model::mesh::setSize(a0, a1)); }  }},
  {"model::mesh::getSizes", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::model::mesh::getSizes(a0, a1)); } else { (um2::gmsh::model::mesh::getSizes(a0, a1)); } g.see(a1); }},
  {"model::mesh::setSizeAtParametricPoints", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::setSizeAtParametricPoints(a0, a1, a2, a3)); }  }},
  {"model::mesh::setSizeCallback", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::function<double(int,int,double,double,double,double)>>(0); if (direct) { (::gmsh::model::mesh::setSizeCallback(a0)); } else { (um2::gmsh::model::mesh::setSizeCallback(a0)); }  }},
  {"model::mesh::removeSizeCallback", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::removeSizeCallback()); } else { (um2::gmsh::model::mesh::removeSizeCallback()); }  }},
  {"model::mesh::setTransfiniteCurve", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::setTransfiniteCurve(a0, a1)); } else { (um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1)); }  }},
  {"model::mesh::setTransfiniteCurve", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2)); }  }},
  {"model::mesh::setTransfiniteCurve", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::setTransfiniteCurve(a0, a1, a2, a3)); }  }},
  {"model::mesh::setTransfiniteSurface", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::setTransfiniteSurface(a0)); } else { (um2::gmsh::model::mesh::setTransfiniteSurface(a0)); }  }},
  {"model::mesh::setTransfiniteSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::model::mesh::setTransfiniteSurface(a0, a1)); } else { (um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1)); }  }},
  {"model::mesh::setTransfiniteSurface", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setTransfiniteSurface(a0, a1, a2)); }  }},
  {"model::mesh::setTransfiniteVolume", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::setTransfiniteVolume(a0)); } else { (um2::gmsh::model::mesh::setTransfiniteVolume(a0)); }  }},
  {"model::mesh::setTransfiniteVolume", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::mesh::setTransfiniteVolume(a0, a1)); } else { (um2::gmsh::model::mesh::setTransfiniteVolume(a0, a1)); }  }},
  {"model::mesh::setTransfiniteAutomatic", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::setTransfiniteAutomatic()); } else { (um2::gmsh::model::mesh::setTransfiniteAutomatic()); }  }},
  {"model::mesh::setTransfiniteAutomatic", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::setTransfiniteAutomatic(a0)); } else { (um2::gmsh::model::mesh::setTransfiniteAutomatic(a0)); }  }},
  {"model::mesh::setTransfiniteAutomatic", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1)); } else { (um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1)); }  }},
  {"model::mesh::setTransfiniteAutomatic", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setTransfiniteAutomatic(a0, a1, a2)); }  }},
  {"model::mesh::setRecombine", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::setRecombine(a0, a1)); } else { (um2::gmsh::model::mesh::setRecombine(a0, a1)); }  }},
  {"model::mesh::setRecombine", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::mesh::setRecombine(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setRecombine(a0, a1, a2)); }  }},
  {"model::mesh::setSmoothing", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::setSmoothing(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setSmoothing(a0, a1, a2)); }  }},
  {"model::mesh::setReverse", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::setReverse(a0, a1)); } else { (um2::gmsh::model::mesh::setReverse(a0, a1)); }  }},
  {"model::mesh::setReverse", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::mesh::setReverse(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setReverse(a0, a1, a2)); }  }},
  {"model::mesh::setAlgorithm", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::setAlgorithm(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setAlgorithm(a0, a1, a2)); }  }},
  {"model::mesh::setSizeFromBoundary", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2)); } else { (um2::gmsh::model::mesh::setSizeFromBoundary(a0, a1, a2)); }  }},
  {"model::mesh::setCompound", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::mesh::setCompound(a0, a1)); } else { (um2::gmsh::model::mesh::setCompound(a0, a1)); }  }},
  {"model::mesh::setOutwardOrientation", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::setOutwardOrientation(a0)); } else { (um2::gmsh::model::mesh::setOutwardOrientation(a0)); }  }},
  {"model::mesh::removeConstraints", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::removeConstraints()); } else { (um2::gmsh::model::mesh::removeConstraints()); }  }},
  {"model::mesh::removeConstraints", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::removeConstraints(a0)); } else { (um2::gmsh::model::mesh::removeConstraints(a0)); }  }},
  {"model::mesh::embed", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { (::gmsh::model::mesh::embed(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::embed(a0, a1, a2, a3)); }  }},
  {"model::mesh::removeEmbedded", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::removeEmbedded(a0)); } else { (um2::gmsh::model::mesh::removeEmbedded(a0)); }  }},
  {"model::mesh::removeEmbedded", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::removeEmbedded(a0, a1)); } else { (um2::gmsh::model::mesh::removeEmbedded(a0, a1)); }  }},
  {"model::mesh::getEmbedded", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); if (direct) { (::gmsh::model::mesh::getEmbedded(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getEmbedded(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::reorderElements", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::size_t>>(2); if (direct) { (::gmsh::model::mesh::reorderElements(a0, a1, a2)); } else { (um2::gmsh::model::mesh::reorderElements(a0, a1, a2)); }  }},
  {"model::mesh::renumberNodes", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::renumberNodes()); } else { (um2::gmsh::model::mesh::renumberNodes()); }  }},
  {"model::mesh::renumberElements", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::renumberElements()); } else { (um2::gmsh::model::mesh::renumberElements()); }  }},
  {"model::mesh::setPeriodic", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::setPeriodic(a0, a1, a2, a3)); }  }},
  {"model::mesh::getPeriodic", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::getPeriodic(a0, a1, a2)); } else { (um2::gmsh::model::mesh::getPeriodic(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::getPeriodicNodes", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); if (direct) { (::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); }},
  {"model::mesh::getPeriodicNodes", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::mesh::getPeriodicNodes(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); }},
  {"model::mesh::getPeriodicKeys", 10, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<int>>(4); auto a5 = g.make<std::vector<int>>(5); auto a6 = g.make<std::vector<std::size_t>>(6); auto a7 = g.make<std::vector<std::size_t>>(7); auto a8 = g.make<std::vector<double>>(8); auto a9 = g.make<std::vector<double>>(9); if (direct) { (::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { (um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); g.see(a8); g.see(a9); }},
  {"model::mesh::getPeriodicKeys", 11, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<std::vector<int>>(4); auto a5 = g.make<std::vector<int>>(5); auto a6 = g.make<std::vector<std::size_t>>(6); auto a7 = g.make<std::vector<std::size_t>>(7); auto a8 = g.make<std::vector<double>>(8); auto a9 = g.make<std::vector<double>>(9); auto a10 = g.make<bool>(10); if (direct) { (::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { (um2::gmsh::model::mesh::getPeriodicKeys(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); g.see(a8); g.see(a9); }},
  {"model::mesh::importStl", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::importStl()); } else { (um2::gmsh::model::mesh::importStl()); }  }},
  {"model::mesh::getDuplicateNodes", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); if (direct) { (::gmsh::model::mesh::getDuplicateNodes(a0)); } else { (um2::gmsh::model::mesh::getDuplicateNodes(a0)); } g.see(a0); }},
  {"model::mesh::getDuplicateNodes", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::mesh::getDuplicateNodes(a0, a1)); } else { (um2::gmsh::model::mesh::getDuplicateNodes(a0, a1)); } g.see(a0); }},
  {"model::mesh::removeDuplicateNodes", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::removeDuplicateNodes()); } else { (um2::gmsh::model::mesh::removeDuplicateNodes()); }  }},
  {"model::mesh::removeDuplicateNodes", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::removeDuplicateNodes(a0)); } else { (um2::gmsh::model::mesh::removeDuplicateNodes(a0)); }  }},
  {"model::mesh::splitQuadrangles", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::splitQuadrangles()); } else { (um2::gmsh::model::mesh::splitQuadrangles()); }  }},
  {"model::mesh::splitQuadrangles", 1, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); if (direct) { (::gmsh::model::mesh::splitQuadrangles(a0)); } else { (um2::gmsh::model::mesh::splitQuadrangles(a0)); }  }},
  {"model::mesh::splitQuadrangles", 2, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::splitQuadrangles(a0, a1)); } else { (um2::gmsh::model::mesh::splitQuadrangles(a0, a1)); }  }},
  {"model::mesh::setVisibility", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::mesh::setVisibility(a0, a1)); } else { (um2::gmsh::model::mesh::setVisibility(a0, a1)); }  }},
  {"model::mesh::classifySurfaces", 1, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); if (direct) { (::gmsh::model::mesh::classifySurfaces(a0)); } else { (um2::gmsh::model::mesh::classifySurfaces(a0)); }  }},
  {"model::mesh::classifySurfaces", 2, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::mesh::classifySurfaces(a0, a1)); } else { (um2::gmsh::model::mesh::classifySurfaces(a0, a1)); }  }},
  {"model::mesh::classifySurfaces", 3, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::mesh::classifySurfaces(a0, a1, a2)); } else { (um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2)); }  }},
  {"model::mesh::classifySurfaces", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3)); }  }},
  {"model::mesh::classifySurfaces", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<double>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::mesh::classifySurfaces(a0, a1, a2, a3, a4)); }  }},
  {"model::mesh::createGeometry", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::createGeometry()); } else { (um2::gmsh::model::mesh::createGeometry()); }  }},
  {"model::mesh::createGeometry", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::mesh::createGeometry(a0)); } else { (um2::gmsh::model::mesh::createGeometry(a0)); }  }},
  {"model::mesh::createTopology", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::createTopology()); } else { (um2::gmsh::model::mesh::createTopology()); }  }},
  {"model::mesh::createTopology", 1, [](Gen & g, bool direct) { auto a0 = g.make<bool>(0); if (direct) { (::gmsh::model::mesh::createTopology(a0)); } else { (um2::gmsh::model::mesh::createTopology(a0)); }  }},
  {"model::mesh::createTopology", 2, [](Gen & g, bool direct) { auto a0 = g.make<bool>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::mesh::createTopology(a0, a1)); } else { (um2::gmsh::model::mesh::createTopology(a0, a1)); }  }},
  {"model::mesh::addHomologyRequest", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::addHomologyRequest()); } else { (um2::gmsh::model::mesh::addHomologyRequest()); }  }},
  {"model::mesh::addHomologyRequest", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::model::mesh::addHomologyRequest(a0)); } else { (um2::gmsh::model::mesh::addHomologyRequest(a0)); }  }},
  {"model::mesh::addHomologyRequest", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::mesh::addHomologyRequest(a0, a1)); } else { (um2::gmsh::model::mesh::addHomologyRequest(a0, a1)); }  }},
  {"model::mesh::addHomologyRequest", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::mesh::addHomologyRequest(a0, a1, a2)); } else { (um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2)); }  }},
  {"model::mesh::addHomologyRequest", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<int>>(3); if (direct) { (::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3)); } else { (um2::gmsh::model::mesh::addHomologyRequest(a0, a1, a2, a3)); }  }},
  {"model::mesh::clearHomologyRequests", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::mesh::clearHomologyRequests()); } else { (um2::gmsh::model::mesh::clearHomologyRequests()); }  }},
  {"model::mesh::computeCrossField", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { (::gmsh::model::mesh::computeCrossField(a0)); } else { (um2::gmsh::model::mesh::computeCrossField(a0)); } g.see(a0); }},
  {"model::mesh::triangulate", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<double>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::triangulate(a0, a1)); } else { (um2::gmsh::model::mesh::triangulate(a0, a1)); } g.see(a1); }},
  {"model::mesh::tetrahedralize", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<double>>(0); auto a1 = g.make<std::vector<std::size_t>>(1); if (direct) { (::gmsh::model::mesh::tetrahedralize(a0, a1)); } else { (um2::gmsh::model::mesh::tetrahedralize(a0, a1)); } g.see(a1); }},
  {"model::mesh::field::add", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { g.see(::gmsh::model::mesh::field::add(a0)); } else { g.see(um2::gmsh::model::mesh::field::add(a0)); }  }},
  {"model::mesh::field::add", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::mesh::field::add(a0, a1)); } else { g.see(um2::gmsh::model::mesh::field::add(a0, a1)); }  }},
  {"model::mesh::field::remove", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::field::remove(a0)); } else { (um2::gmsh::model::mesh::field::remove(a0)); }  }},
  {"model::mesh::field::list", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { (::gmsh::model::mesh::field::list(a0)); } else { (um2::gmsh::model::mesh::field::list(a0)); } g.see(a0); }},
  {"model::mesh::field::getType", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::model::mesh::field::getType(a0, a1)); } else { (um2::gmsh::model::mesh::field::getType(a0, a1)); } g.see(a1); }},
  {"model::mesh::field::setNumber", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::mesh::field::setNumber(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::setNumber(a0, a1, a2)); }  }},
  {"model::mesh::field::getNumber", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::mesh::field::getNumber(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::getNumber(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::field::setString", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::mesh::field::setString(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::setString(a0, a1, a2)); }  }},
  {"model::mesh::field::getString", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::mesh::field::getString(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::getString(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::field::setNumbers", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::mesh::field::setNumbers(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::setNumbers(a0, a1, a2)); }  }},
  {"model::mesh::field::getNumbers", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::mesh::field::getNumbers(a0, a1, a2)); } else { (um2::gmsh::model::mesh::field::getNumbers(a0, a1, a2)); } g.see(a2); }},
  {"model::mesh::field::setAsBackgroundMesh", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::field::setAsBackgroundMesh(a0)); } else { (um2::gmsh::model::mesh::field::setAsBackgroundMesh(a0)); }  }},
  {"model::mesh::field::setAsBoundaryLayer", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::mesh::field::setAsBoundaryLayer(a0)); } else { (um2::gmsh::model::mesh::field::setAsBoundaryLayer(a0)); }  }},
  {"model::geo::addPoint", 3, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); if (direct) { g.see(::gmsh::model::geo::addPoint(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addPoint(a0, a1, a2)); }  }},
  {"model::geo::addPoint", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { g.see(::gmsh::model::geo::addPoint(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::geo::addPoint(a0, a1, a2, a3)); }  }},
  {"model::geo::addPoint", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::geo::addPoint(a0, a1, a2, a3, a4)); }  }},
  {"model::geo::addLine", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addLine(a0, a1)); } else { g.see(um2::gmsh::model::geo::addLine(a0, a1)); }  }},
  {"model::geo::addLine", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addLine(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addLine(a0, a1, a2)); }  }},
  {"model::geo::addCircleArc", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addCircleArc(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addCircleArc(a0, a1, a2)); }  }},
  {"model::geo::addCircleArc", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::geo::addCircleArc(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3)); }  }},
  {"model::geo::addCircleArc", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<double>(4); if (direct) { g.see(::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4)); }  }},
  {"model::geo::addCircleArc", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::geo::addCircleArc", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::geo::addCircleArc(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::geo::addEllipseArc", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3)); }  }},
  {"model::geo::addEllipseArc", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4)); }  }},
  {"model::geo::addEllipseArc", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::geo::addEllipseArc", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::geo::addEllipseArc", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::geo::addEllipseArc(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::geo::addBSpline", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addBSpline(a0)); } else { g.see(um2::gmsh::model::geo::addBSpline(a0)); }  }},
  {"model::geo::addBSpline", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addBSpline(a0, a1)); } else { g.see(um2::gmsh::model::geo::addBSpline(a0, a1)); }  }},
  {"model::geo::addBezier", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addBezier(a0)); } else { g.see(um2::gmsh::model::geo::addBezier(a0)); }  }},
  {"model::geo::addBezier", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addBezier(a0, a1)); } else { g.see(um2::gmsh::model::geo::addBezier(a0, a1)); }  }},
  {"model::geo::addPolyline", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addPolyline(a0)); } else { g.see(um2::gmsh::model::geo::addPolyline(a0)); }  }},
  {"model::geo::addPolyline", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addPolyline(a0, a1)); } else { g.see(um2::gmsh::model::geo::addPolyline(a0, a1)); }  }},
  {"model::geo::addCompoundSpline", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addCompoundSpline(a0)); } else { g.see(um2::gmsh::model::geo::addCompoundSpline(a0)); }  }},
  {"model::geo::addCompoundSpline", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addCompoundSpline(a0, a1)); } else { g.see(um2::gmsh::model::geo::addCompoundSpline(a0, a1)); }  }},
  {"model::geo::addCompoundSpline", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addCompoundSpline(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addCompoundSpline(a0, a1, a2)); }  }},
  {"model::geo::addCompoundBSpline", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addCompoundBSpline(a0)); } else { g.see(um2::gmsh::model::geo::addCompoundBSpline(a0)); }  }},
  {"model::geo::addCompoundBSpline", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addCompoundBSpline(a0, a1)); } else { g.see(um2::gmsh::model::geo::addCompoundBSpline(a0, a1)); }  }},
  {"model::geo::addCompoundBSpline", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addCompoundBSpline(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addCompoundBSpline(a0, a1, a2)); }  }},
  {"model::geo::addCurveLoop", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addCurveLoop(a0)); } else { g.see(um2::gmsh::model::geo::addCurveLoop(a0)); }  }},
  {"model::geo::addCurveLoop", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addCurveLoop(a0, a1)); } else { g.see(um2::gmsh::model::geo::addCurveLoop(a0, a1)); }  }},
  {"model::geo::addCurveLoop", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { g.see(::gmsh::model::geo::addCurveLoop(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addCurveLoop(a0, a1, a2)); }  }},
  {"model::geo::addCurveLoops", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::geo::addCurveLoops(a0, a1)); } else { (um2::gmsh::model::geo::addCurveLoops(a0, a1)); } g.see(a1); }},
  {"model::geo::addPlaneSurface", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addPlaneSurface(a0)); } else { g.see(um2::gmsh::model::geo::addPlaneSurface(a0)); }  }},
  {"model::geo::addPlaneSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addPlaneSurface(a0, a1)); } else { g.see(um2::gmsh::model::geo::addPlaneSurface(a0, a1)); }  }},
  {"model::geo::addSurfaceFilling", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::geo::addSurfaceFilling(a0)); } else { g.see(um2::gmsh::model::geo::addSurfaceFilling(a0)); }  }},
  {"model::geo::addSurfaceFilling", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::geo::addSurfaceFilling(a0, a1)); } else { g.see(um2::gmsh::model::geo::addSurfaceFilling(a0, a1)); }  }},
  {"model::geo::addSurfaceFilling", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addSurfaceFilling(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addSurfaceFilling(a0, a1, a2)); }  }},
  {"model::geo::revolve", 9, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); if (direct) { (::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } g.see(a8); }},
  {"model::geo::revolve", 10, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); if (direct) { (::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { (um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } g.see(a8); }},
  {"model::geo::revolve", 11, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<double>>(10); if (direct) { (::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { (um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } g.see(a8); }},
  {"model::geo::revolve", 12, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<double>>(10); auto a11 = g.make<bool>(11); if (direct) { (::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { (um2::gmsh::model::geo::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } g.see(a8); }},
  {"model::geo::twist", 12, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<std::vector<std::pair<int,int>>>(11); if (direct) { (::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { (um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } g.see(a11); }},
  {"model::geo::twist", 13, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<std::vector<std::pair<int,int>>>(11); auto a12 = g.make<std::vector<int>>(12); if (direct) { (::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); } else { (um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); } g.see(a11); }},
  {"model::geo::twist", 14, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<std::vector<std::pair<int,int>>>(11); auto a12 = g.make<std::vector<int>>(12); auto a13 = g.make<std::vector<double>>(13); if (direct) { (::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13)); } else { (um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13)); } g.see(a11); }},
  {"model::geo::twist", 15, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<std::vector<std::pair<int,int>>>(11); auto a12 = g.make<std::vector<int>>(12); auto a13 = g.make<std::vector<double>>(13); auto a14 = g.make<bool>(14); if (direct) { (::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14)); } else { (um2::gmsh::model::geo::twist(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14)); } g.see(a11); }},
  {"model::geo::extrudeBoundaryLayer", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1)); } g.see(a1); }},
  {"model::geo::extrudeBoundaryLayer", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2)); } g.see(a1); }},
  {"model::geo::extrudeBoundaryLayer", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3)); } g.see(a1); }},
  {"model::geo::extrudeBoundaryLayer", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4)); } g.see(a1); }},
  {"model::geo::extrudeBoundaryLayer", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5)); } g.see(a1); }},
  {"model::geo::extrudeBoundaryLayer", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<int>(6); if (direct) { (::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::geo::extrudeBoundaryLayer(a0, a1, a2, a3, a4, a5, a6)); } g.see(a1); }},
  {"model::geo::translate", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::geo::translate(a0, a1, a2, a3)); } else { (um2::gmsh::model::geo::translate(a0, a1, a2, a3)); }  }},
  {"model::geo::rotate", 8, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { (::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::geo::rotate(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::geo::dilate", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { (::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::geo::dilate(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::geo::mirror", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { (::gmsh::model::geo::mirror(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::geo::mirror(a0, a1, a2, a3, a4)); }  }},
  {"model::geo::symmetrize", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { (::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::geo::symmetrize(a0, a1, a2, a3, a4)); }  }},
  {"model::geo::copy", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::geo::copy(a0, a1)); } else { (um2::gmsh::model::geo::copy(a0, a1)); } g.see(a1); }},
  {"model::geo::remove", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::geo::remove(a0)); } else { (um2::gmsh::model::geo::remove(a0)); }  }},
  {"model::geo::remove", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::geo::remove(a0, a1)); } else { (um2::gmsh::model::geo::remove(a0, a1)); }  }},
  {"model::geo::removeAllDuplicates", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::geo::removeAllDuplicates()); } else { (um2::gmsh::model::geo::removeAllDuplicates()); }  }},
  {"model::geo::splitCurve", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::geo::splitCurve(a0, a1, a2)); } else { (um2::gmsh::model::geo::splitCurve(a0, a1, a2)); } g.see(a2); }},
  {"model::geo::getMaxTag", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::geo::getMaxTag(a0)); } else { g.see(um2::gmsh::model::geo::getMaxTag(a0)); }  }},
  {"model::geo::setMaxTag", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::geo::setMaxTag(a0, a1)); } else { (um2::gmsh::model::geo::setMaxTag(a0, a1)); }  }},
  {"model::geo::addPhysicalGroup", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { g.see(::gmsh::model::geo::addPhysicalGroup(a0, a1)); } else { g.see(um2::gmsh::model::geo::addPhysicalGroup(a0, a1)); }  }},
  {"model::geo::addPhysicalGroup", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::geo::addPhysicalGroup(a0, a1, a2)); } else { g.see(um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2)); }  }},
  {"model::geo::addPhysicalGroup", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::string>(3); if (direct) { g.see(::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::geo::addPhysicalGroup(a0, a1, a2, a3)); }  }},
  {"model::geo::removePhysicalGroups", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::geo::removePhysicalGroups()); } else { (um2::gmsh::model::geo::removePhysicalGroups()); }  }},
  {"model::geo::removePhysicalGroups", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::geo::removePhysicalGroups(a0)); } else { (um2::gmsh::model::geo::removePhysicalGroups(a0)); }  }},
  {"model::geo::synchronize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::geo::synchronize()); } else { (um2::gmsh::model::geo::synchronize()); }  }},
  {"model::geo::mesh::setSize", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::model::geo::mesh::setSize(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setSize(a0, a1)); }  }},
  {"model::geo::mesh::setTransfiniteCurve", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1)); }  }},
  {"model::geo::mesh::setTransfiniteCurve", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2)); }  }},
  {"model::geo::mesh::setTransfiniteCurve", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteCurve(a0, a1, a2, a3)); }  }},
  {"model::geo::mesh::setTransfiniteSurface", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteSurface(a0)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0)); }  }},
  {"model::geo::mesh::setTransfiniteSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1)); }  }},
  {"model::geo::mesh::setTransfiniteSurface", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteSurface(a0, a1, a2)); }  }},
  {"model::geo::mesh::setTransfiniteVolume", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteVolume(a0)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0)); }  }},
  {"model::geo::mesh::setTransfiniteVolume", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { (::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setTransfiniteVolume(a0, a1)); }  }},
  {"model::geo::mesh::setRecombine", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::geo::mesh::setRecombine(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setRecombine(a0, a1)); }  }},
  {"model::geo::mesh::setRecombine", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::geo::mesh::setRecombine(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setRecombine(a0, a1, a2)); }  }},
  {"model::geo::mesh::setSmoothing", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setSmoothing(a0, a1, a2)); }  }},
  {"model::geo::mesh::setReverse", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::geo::mesh::setReverse(a0, a1)); } else { (um2::gmsh::model::geo::mesh::setReverse(a0, a1)); }  }},
  {"model::geo::mesh::setReverse", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::geo::mesh::setReverse(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setReverse(a0, a1, a2)); }  }},
  {"model::geo::mesh::setAlgorithm", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setAlgorithm(a0, a1, a2)); }  }},
  {"model::geo::mesh::setSizeFromBoundary", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2)); } else { (um2::gmsh::model::geo::mesh::setSizeFromBoundary(a0, a1, a2)); }  }},
  {"model::occ::addPoint", 3, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); if (direct) { g.see(::gmsh::model::occ::addPoint(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addPoint(a0, a1, a2)); }  }},
  {"model::occ::addPoint", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { g.see(::gmsh::model::occ::addPoint(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addPoint(a0, a1, a2, a3)); }  }},
  {"model::occ::addPoint", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addPoint(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addLine", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addLine(a0, a1)); } else { g.see(um2::gmsh::model::occ::addLine(a0, a1)); }  }},
  {"model::occ::addLine", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::occ::addLine(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addLine(a0, a1, a2)); }  }},
  {"model::occ::addCircleArc", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::occ::addCircleArc(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addCircleArc(a0, a1, a2)); }  }},
  {"model::occ::addCircleArc", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::occ::addCircleArc(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addCircleArc(a0, a1, a2, a3)); }  }},
  {"model::occ::addCircle", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3)); }  }},
  {"model::occ::addCircle", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addCircle", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addCircle", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addCircle", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addCircle", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<std::vector<double>>(8); if (direct) { g.see(::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addCircle(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addEllipseArc", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3)); }  }},
  {"model::occ::addEllipseArc", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addEllipseArc(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addEllipse", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addEllipse", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addEllipse", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addEllipse", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addEllipse", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<double>>(8); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addEllipse", 10, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<double>>(8); auto a9 = g.make<std::vector<double>>(9); if (direct) { g.see(::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { g.see(um2::gmsh::model::occ::addEllipse(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); }  }},
  {"model::occ::addBSpline", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0)); }  }},
  {"model::occ::addBSpline", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0, a1)); }  }},
  {"model::occ::addBSpline", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0, a1, a2)); }  }},
  {"model::occ::addBSpline", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3)); }  }},
  {"model::occ::addBSpline", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addBSpline", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<std::vector<int>>(5); if (direct) { g.see(::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addBSpline(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addBezier", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addBezier(a0)); } else { g.see(um2::gmsh::model::occ::addBezier(a0)); }  }},
  {"model::occ::addBezier", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBezier(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBezier(a0, a1)); }  }},
  {"model::occ::addWire", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addWire(a0)); } else { g.see(um2::gmsh::model::occ::addWire(a0)); }  }},
  {"model::occ::addWire", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addWire(a0, a1)); } else { g.see(um2::gmsh::model::occ::addWire(a0, a1)); }  }},
  {"model::occ::addWire", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { g.see(::gmsh::model::occ::addWire(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addWire(a0, a1, a2)); }  }},
  {"model::occ::addCurveLoop", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addCurveLoop(a0)); } else { g.see(um2::gmsh::model::occ::addCurveLoop(a0)); }  }},
  {"model::occ::addCurveLoop", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addCurveLoop(a0, a1)); } else { g.see(um2::gmsh::model::occ::addCurveLoop(a0, a1)); }  }},
  {"model::occ::addRectangle", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { g.see(::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addRectangle", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); if (direct) { g.see(::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addRectangle", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addRectangle(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addDisk", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { g.see(::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addDisk", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); if (direct) { g.see(::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addDisk", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::vector<double>>(6); if (direct) { g.see(::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addDisk", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { g.see(::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addDisk(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addPlaneSurface", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addPlaneSurface(a0)); } else { g.see(um2::gmsh::model::occ::addPlaneSurface(a0)); }  }},
  {"model::occ::addPlaneSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addPlaneSurface(a0, a1)); } else { g.see(um2::gmsh::model::occ::addPlaneSurface(a0, a1)); }  }},
  {"model::occ::addSurfaceFilling", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0)); }  }},
  {"model::occ::addSurfaceFilling", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1)); }  }},
  {"model::occ::addSurfaceFilling", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2)); }  }},
  {"model::occ::addSurfaceFilling", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3)); }  }},
  {"model::occ::addSurfaceFilling", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addSurfaceFilling", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addSurfaceFilling", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addSurfaceFilling", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addSurfaceFilling", 9, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addSurfaceFilling", 10, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); }  }},
  {"model::occ::addSurfaceFilling", 11, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); }  }},
  {"model::occ::addSurfaceFilling", 12, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<int>(11); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); }  }},
  {"model::occ::addSurfaceFilling", 13, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<double>(7); auto a8 = g.make<double>(8); auto a9 = g.make<double>(9); auto a10 = g.make<double>(10); auto a11 = g.make<int>(11); auto a12 = g.make<int>(12); if (direct) { g.see(::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); } else { g.see(um2::gmsh::model::occ::addSurfaceFilling(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); }  }},
  {"model::occ::addBSplineFilling", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::occ::addBSplineFilling(a0)); } else { g.see(um2::gmsh::model::occ::addBSplineFilling(a0)); }  }},
  {"model::occ::addBSplineFilling", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBSplineFilling(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBSplineFilling(a0, a1)); }  }},
  {"model::occ::addBSplineFilling", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { g.see(::gmsh::model::occ::addBSplineFilling(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addBSplineFilling(a0, a1, a2)); }  }},
  {"model::occ::addBezierFilling", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::occ::addBezierFilling(a0)); } else { g.see(um2::gmsh::model::occ::addBezierFilling(a0)); }  }},
  {"model::occ::addBezierFilling", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBezierFilling(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBezierFilling(a0, a1)); }  }},
  {"model::occ::addBezierFilling", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); if (direct) { g.see(::gmsh::model::occ::addBezierFilling(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addBezierFilling(a0, a1, a2)); }  }},
  {"model::occ::addBSplineSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1)); }  }},
  {"model::occ::addBSplineSurface", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2)); }  }},
  {"model::occ::addBSplineSurface", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3)); }  }},
  {"model::occ::addBSplineSurface", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addBSplineSurface", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addBSplineSurface", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addBSplineSurface", 8, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addBSplineSurface", 9, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<std::vector<int>>(8); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addBSplineSurface", 10, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<std::vector<int>>(8); auto a9 = g.make<std::vector<int>>(9); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); }  }},
  {"model::occ::addBSplineSurface", 11, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<std::vector<int>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<int>>(10); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); }  }},
  {"model::occ::addBSplineSurface", 12, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); auto a8 = g.make<std::vector<int>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<int>>(10); auto a11 = g.make<bool>(11); if (direct) { g.see(::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { g.see(um2::gmsh::model::occ::addBSplineSurface(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); }  }},
  {"model::occ::addBezierSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addBezierSurface(a0, a1)); } else { g.see(um2::gmsh::model::occ::addBezierSurface(a0, a1)); }  }},
  {"model::occ::addBezierSurface", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::model::occ::addBezierSurface(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addBezierSurface(a0, a1, a2)); }  }},
  {"model::occ::addBezierSurface", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<int>>(3); if (direct) { g.see(::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3)); }  }},
  {"model::occ::addBezierSurface", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<int>>(3); auto a4 = g.make<bool>(4); if (direct) { g.see(::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addBezierSurface(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addTrimmedSurface", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::occ::addTrimmedSurface(a0)); } else { g.see(um2::gmsh::model::occ::addTrimmedSurface(a0)); }  }},
  {"model::occ::addTrimmedSurface", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); if (direct) { g.see(::gmsh::model::occ::addTrimmedSurface(a0, a1)); } else { g.see(um2::gmsh::model::occ::addTrimmedSurface(a0, a1)); }  }},
  {"model::occ::addTrimmedSurface", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<bool>(2); if (direct) { g.see(::gmsh::model::occ::addTrimmedSurface(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2)); }  }},
  {"model::occ::addTrimmedSurface", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<int>(3); if (direct) { g.see(::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addTrimmedSurface(a0, a1, a2, a3)); }  }},
  {"model::occ::addSurfaceLoop", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addSurfaceLoop(a0)); } else { g.see(um2::gmsh::model::occ::addSurfaceLoop(a0)); }  }},
  {"model::occ::addSurfaceLoop", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addSurfaceLoop(a0, a1)); } else { g.see(um2::gmsh::model::occ::addSurfaceLoop(a0, a1)); }  }},
  {"model::occ::addSurfaceLoop", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<bool>(2); if (direct) { g.see(::gmsh::model::occ::addSurfaceLoop(a0, a1, a2)); } else { g.see(um2::gmsh::model::occ::addSurfaceLoop(a0, a1, a2)); }  }},
  {"model::occ::addVolume", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::model::occ::addVolume(a0)); } else { g.see(um2::gmsh::model::occ::addVolume(a0)); }  }},
  {"model::occ::addVolume", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::model::occ::addVolume(a0, a1)); } else { g.see(um2::gmsh::model::occ::addVolume(a0, a1)); }  }},
  {"model::occ::addSphere", 4, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { g.see(::gmsh::model::occ::addSphere(a0, a1, a2, a3)); } else { g.see(um2::gmsh::model::occ::addSphere(a0, a1, a2, a3)); }  }},
  {"model::occ::addSphere", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); if (direct) { g.see(::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addSphere", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addSphere", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addSphere", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<int>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addSphere(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addBox", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addBox", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); if (direct) { g.see(::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addBox(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addCylinder", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addCylinder", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); if (direct) { g.see(::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addCylinder", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); auto a8 = g.make<double>(8); if (direct) { g.see(::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addCylinder(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addCone", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addCone", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<int>(8); if (direct) { g.see(::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addCone", 10, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<int>(8); auto a9 = g.make<double>(9); if (direct) { g.see(::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { g.see(um2::gmsh::model::occ::addCone(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); }  }},
  {"model::occ::addWedge", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); if (direct) { g.see(::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addWedge", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); if (direct) { g.see(::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addWedge", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<double>(7); if (direct) { g.see(::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addWedge", 9, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<double>>(8); if (direct) { g.see(::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { g.see(um2::gmsh::model::occ::addWedge(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"model::occ::addTorus", 5, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { g.see(::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4)); } else { g.see(um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::addTorus", 6, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); if (direct) { g.see(::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5)); } else { g.see(um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5)); }  }},
  {"model::occ::addTorus", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); if (direct) { g.see(::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6)); } else { g.see(um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::addTorus", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<int>(5); auto a6 = g.make<double>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { g.see(::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7)); } else { g.see(um2::gmsh::model::occ::addTorus(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::addThickSolid", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::vector<std::pair<int,int>>>(3); if (direct) { (::gmsh::model::occ::addThickSolid(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::occ::addThickSolid", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<std::vector<std::pair<int,int>>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::addThickSolid(a0, a1, a2, a3, a4)); } g.see(a3); }},
  {"model::occ::extrude", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); if (direct) { (::gmsh::model::occ::extrude(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4)); } g.see(a4); }},
  {"model::occ::extrude", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); auto a5 = g.make<std::vector<int>>(5); if (direct) { (::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5)); } g.see(a4); }},
  {"model::occ::extrude", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); auto a5 = g.make<std::vector<int>>(5); auto a6 = g.make<std::vector<double>>(6); if (direct) { (::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6)); } g.see(a4); }},
  {"model::occ::extrude", 8, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); auto a5 = g.make<std::vector<int>>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<bool>(7); if (direct) { (::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::occ::extrude(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a4); }},
  {"model::occ::revolve", 9, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); if (direct) { (::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } g.see(a8); }},
  {"model::occ::revolve", 10, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); if (direct) { (::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { (um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } g.see(a8); }},
  {"model::occ::revolve", 11, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<double>>(10); if (direct) { (::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { (um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } g.see(a8); }},
  {"model::occ::revolve", 12, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); auto a8 = g.make<std::vector<std::pair<int,int>>>(8); auto a9 = g.make<std::vector<int>>(9); auto a10 = g.make<std::vector<double>>(10); auto a11 = g.make<bool>(11); if (direct) { (::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { (um2::gmsh::model::occ::revolve(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } g.see(a8); }},
  {"model::occ::addPipe", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); if (direct) { (::gmsh::model::occ::addPipe(a0, a1, a2)); } else { (um2::gmsh::model::occ::addPipe(a0, a1, a2)); } g.see(a2); }},
  {"model::occ::addPipe", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::string>(3); if (direct) { (::gmsh::model::occ::addPipe(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::addPipe(a0, a1, a2, a3)); } g.see(a2); }},
  {"model::occ::fillet", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<std::pair<int,int>>>(3); if (direct) { (::gmsh::model::occ::fillet(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::fillet(a0, a1, a2, a3)); } g.see(a3); }},
  {"model::occ::fillet", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<std::pair<int,int>>>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::occ::fillet(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::fillet(a0, a1, a2, a3, a4)); } g.see(a3); }},
  {"model::occ::chamfer", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); if (direct) { (::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4)); } g.see(a4); }},
  {"model::occ::chamfer", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<std::pair<int,int>>>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::chamfer(a0, a1, a2, a3, a4, a5)); } g.see(a4); }},
  {"model::occ::fuse", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); if (direct) { (::gmsh::model::occ::fuse(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::fuse(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::occ::fuse", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::occ::fuse(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); }},
  {"model::occ::fuse", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); }},
  {"model::occ::fuse", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::fuse(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); }},
  {"model::occ::intersect", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); if (direct) { (::gmsh::model::occ::intersect(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::intersect(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::occ::intersect", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::occ::intersect(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); }},
  {"model::occ::intersect", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); }},
  {"model::occ::intersect", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::intersect(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); }},
  {"model::occ::cut", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); if (direct) { (::gmsh::model::occ::cut(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::cut(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::occ::cut", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::occ::cut(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); }},
  {"model::occ::cut", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); }},
  {"model::occ::cut", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::cut(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); }},
  {"model::occ::fragment", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); if (direct) { (::gmsh::model::occ::fragment(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::fragment(a0, a1, a2, a3)); } g.see(a2); g.see(a3); }},
  {"model::occ::fragment", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::model::occ::fragment(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); }},
  {"model::occ::fragment", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); }},
  {"model::occ::fragment", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<std::vector<std::pair<int,int>>>(2); auto a3 = g.make<std::vector<std::vector<std::pair<int,int>>>>(3); auto a4 = g.make<int>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::fragment(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); }},
  {"model::occ::translate", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); if (direct) { (::gmsh::model::occ::translate(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::translate(a0, a1, a2, a3)); }  }},
  {"model::occ::rotate", 8, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { (::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::occ::rotate(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"model::occ::dilate", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); if (direct) { (::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::dilate(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"model::occ::mirror", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { (::gmsh::model::occ::mirror(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::mirror(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::symmetrize", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { (::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::symmetrize(a0, a1, a2, a3, a4)); }  }},
  {"model::occ::affineTransform", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::model::occ::affineTransform(a0, a1)); } else { (um2::gmsh::model::occ::affineTransform(a0, a1)); }  }},
  {"model::occ::copy", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::occ::copy(a0, a1)); } else { (um2::gmsh::model::occ::copy(a0, a1)); } g.see(a1); }},
  {"model::occ::remove", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::occ::remove(a0)); } else { (um2::gmsh::model::occ::remove(a0)); }  }},
  {"model::occ::remove", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::model::occ::remove(a0, a1)); } else { (um2::gmsh::model::occ::remove(a0, a1)); }  }},
  {"model::occ::removeAllDuplicates", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::occ::removeAllDuplicates()); } else { (um2::gmsh::model::occ::removeAllDuplicates()); }  }},
  {"model::occ::healShapes", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::occ::healShapes(a0)); } else { (um2::gmsh::model::occ::healShapes(a0)); } g.see(a0); }},
  {"model::occ::healShapes", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::occ::healShapes(a0, a1)); } else { (um2::gmsh::model::occ::healShapes(a0, a1)); } g.see(a0); }},
  {"model::occ::healShapes", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2)); } g.see(a0); }},
  {"model::occ::healShapes", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<bool>(3); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2, a3)); } g.see(a0); }},
  {"model::occ::healShapes", 5, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4)); } g.see(a0); }},
  {"model::occ::healShapes", 6, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<bool>(5); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5)); } g.see(a0); }},
  {"model::occ::healShapes", 7, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6)); } g.see(a0); }},
  {"model::occ::healShapes", 8, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<double>(2); auto a3 = g.make<bool>(3); auto a4 = g.make<bool>(4); auto a5 = g.make<bool>(5); auto a6 = g.make<bool>(6); auto a7 = g.make<bool>(7); if (direct) { (::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::occ::healShapes(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a0); }},
  {"model::occ::convertToNURBS", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::occ::convertToNURBS(a0)); } else { (um2::gmsh::model::occ::convertToNURBS(a0)); }  }},
  {"model::occ::importShapes", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::occ::importShapes(a0, a1)); } else { (um2::gmsh::model::occ::importShapes(a0, a1)); } g.see(a1); }},
  {"model::occ::importShapes", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::occ::importShapes(a0, a1, a2)); } else { (um2::gmsh::model::occ::importShapes(a0, a1, a2)); } g.see(a1); }},
  {"model::occ::importShapes", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<std::string>(3); if (direct) { (::gmsh::model::occ::importShapes(a0, a1, a2, a3)); } else { (um2::gmsh::model::occ::importShapes(a0, a1, a2, a3)); } g.see(a1); }},
  {"model::occ::importShapesNativePointer", 2, [](Gen & g, bool direct) { auto a0 = g.make<void*>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); if (direct) { (::gmsh::model::occ::importShapesNativePointer(a0, a1)); } else { (um2::gmsh::model::occ::importShapesNativePointer(a0, a1)); } g.see(a1); }},
  {"model::occ::importShapesNativePointer", 3, [](Gen & g, bool direct) { auto a0 = g.make<void*>(0); auto a1 = g.make<std::vector<std::pair<int,int>>>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::model::occ::importShapesNativePointer(a0, a1, a2)); } else { (um2::gmsh::model::occ::importShapesNativePointer(a0, a1, a2)); } g.see(a1); }},
  {"model::occ::getEntities", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { (::gmsh::model::occ::getEntities(a0)); } else { (um2::gmsh::model::occ::getEntities(a0)); } g.see(a0); }},
  {"model::occ::getEntities", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::occ::getEntities(a0, a1)); } else { (um2::gmsh::model::occ::getEntities(a0, a1)); } g.see(a0); }},
  {"model::occ::getEntitiesInBoundingBox", 7, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<std::vector<std::pair<int,int>>>(6); if (direct) { (::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6)); } g.see(a6); }},
  {"model::occ::getEntitiesInBoundingBox", 8, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<std::vector<std::pair<int,int>>>(6); auto a7 = g.make<int>(7); if (direct) { (::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::occ::getEntitiesInBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a6); }},
  {"model::occ::getBoundingBox", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); auto a5 = g.make<double>(5); auto a6 = g.make<double>(6); auto a7 = g.make<double>(7); if (direct) { (::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::model::occ::getBoundingBox(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); g.see(a6); g.see(a7); }},
  {"model::occ::getCurveLoops", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<std::vector<int>>>(2); if (direct) { (::gmsh::model::occ::getCurveLoops(a0, a1, a2)); } else { (um2::gmsh::model::occ::getCurveLoops(a0, a1, a2)); } g.see(a1); g.see(a2); }},
  {"model::occ::getSurfaceLoops", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<int>>(1); auto a2 = g.make<std::vector<std::vector<int>>>(2); if (direct) { (::gmsh::model::occ::getSurfaceLoops(a0, a1, a2)); } else { (um2::gmsh::model::occ::getSurfaceLoops(a0, a1, a2)); } g.see(a1); g.see(a2); }},
  {"model::occ::getMass", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::model::occ::getMass(a0, a1, a2)); } else { (um2::gmsh::model::occ::getMass(a0, a1, a2)); } g.see(a2); }},
  {"model::occ::getCenterOfMass", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<double>(4); if (direct) { (::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4)); } else { (um2::gmsh::model::occ::getCenterOfMass(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"model::occ::getMatrixOfInertia", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); if (direct) { (::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2)); } else { (um2::gmsh::model::occ::getMatrixOfInertia(a0, a1, a2)); } g.see(a2); }},
  {"model::occ::getMaxTag", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::model::occ::getMaxTag(a0)); } else { g.see(um2::gmsh::model::occ::getMaxTag(a0)); }  }},
  {"model::occ::setMaxTag", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::model::occ::setMaxTag(a0, a1)); } else { (um2::gmsh::model::occ::setMaxTag(a0, a1)); }  }},
  {"model::occ::synchronize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::model::occ::synchronize()); } else { (um2::gmsh::model::occ::synchronize()); }  }},
  {"model::occ::mesh::setSize", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::model::occ::mesh::setSize(a0, a1)); } else { (um2::gmsh::model::occ::mesh::setSize(a0, a1)); }  }},
  {"view::add", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { g.see(::gmsh::view::add(a0)); } else { g.see(um2::gmsh::view::add(a0)); }  }},
  {"view::add", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::view::add(a0, a1)); } else { g.see(um2::gmsh::view::add(a0, a1)); }  }},
  {"view::remove", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::view::remove(a0)); } else { (um2::gmsh::view::remove(a0)); }  }},
  {"view::getIndex", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::view::getIndex(a0)); } else { g.see(um2::gmsh::view::getIndex(a0)); }  }},
  {"view::getTags", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { (::gmsh::view::getTags(a0)); } else { (um2::gmsh::view::getTags(a0)); } g.see(a0); }},
  {"view::addModelData", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<std::vector<double>>>(5); if (direct) { (::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5)); }  }},
  {"view::addModelData", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<std::vector<double>>>(5); auto a6 = g.make<double>(6); if (direct) { (::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"view::addModelData", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<std::vector<double>>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); if (direct) { (::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"view::addModelData", 9, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<std::vector<double>>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); auto a8 = g.make<int>(8); if (direct) { (::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::view::addModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"view::addHomogeneousModelData", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); if (direct) { (::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5)); }  }},
  {"view::addHomogeneousModelData", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<double>(6); if (direct) { (::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"view::addHomogeneousModelData", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); if (direct) { (::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"view::addHomogeneousModelData", 9, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::string>(3); auto a4 = g.make<std::vector<std::size_t>>(4); auto a5 = g.make<std::vector<double>>(5); auto a6 = g.make<double>(6); auto a7 = g.make<int>(7); auto a8 = g.make<int>(8); if (direct) { (::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::view::addHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6, a7, a8)); }  }},
  {"view::getModelData", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<std::vector<double>>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); if (direct) { (::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::getModelData(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); g.see(a6); }},
  {"view::getHomogeneousModelData", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::string>(2); auto a3 = g.make<std::vector<std::size_t>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); if (direct) { (::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::getHomogeneousModelData(a0, a1, a2, a3, a4, a5, a6)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); g.see(a6); }},
  {"view::addListData", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); if (direct) { (::gmsh::view::addListData(a0, a1, a2, a3)); } else { (um2::gmsh::view::addListData(a0, a1, a2, a3)); }  }},
  {"view::getListData", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<std::string>>(1); auto a2 = g.make<std::vector<int>>(2); auto a3 = g.make<std::vector<std::vector<double>>>(3); if (direct) { (::gmsh::view::getListData(a0, a1, a2, a3)); } else { (um2::gmsh::view::getListData(a0, a1, a2, a3)); } g.see(a1); g.see(a2); g.see(a3); }},
  {"view::addListDataString", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<std::string>>(2); if (direct) { (::gmsh::view::addListDataString(a0, a1, a2)); } else { (um2::gmsh::view::addListDataString(a0, a1, a2)); }  }},
  {"view::addListDataString", 4, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::vector<double>>(1); auto a2 = g.make<std::vector<std::string>>(2); auto a3 = g.make<std::vector<std::string>>(3); if (direct) { (::gmsh::view::addListDataString(a0, a1, a2, a3)); } else { (um2::gmsh::view::addListDataString(a0, a1, a2, a3)); }  }},
  {"view::getListDataStrings", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<std::vector<double>>(2); auto a3 = g.make<std::vector<std::string>>(3); auto a4 = g.make<std::vector<std::string>>(4); if (direct) { (::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4)); } else { (um2::gmsh::view::getListDataStrings(a0, a1, a2, a3, a4)); } g.see(a2); g.see(a3); g.see(a4); }},
  {"view::setInterpolationMatrices", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); if (direct) { (::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4)); } else { (um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4)); }  }},
  {"view::setInterpolationMatrices", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5)); }  }},
  {"view::setInterpolationMatrices", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::vector<double>>(6); if (direct) { (::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6)); }  }},
  {"view::setInterpolationMatrices", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<std::vector<double>>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<int>(5); auto a6 = g.make<std::vector<double>>(6); auto a7 = g.make<std::vector<double>>(7); if (direct) { (::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::view::setInterpolationMatrices(a0, a1, a2, a3, a4, a5, a6, a7)); }  }},
  {"view::addAlias", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { g.see(::gmsh::view::addAlias(a0)); } else { g.see(um2::gmsh::view::addAlias(a0)); }  }},
  {"view::addAlias", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<bool>(1); if (direct) { g.see(::gmsh::view::addAlias(a0, a1)); } else { g.see(um2::gmsh::view::addAlias(a0, a1)); }  }},
  {"view::addAlias", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<bool>(1); auto a2 = g.make<int>(2); if (direct) { g.see(::gmsh::view::addAlias(a0, a1, a2)); } else { g.see(um2::gmsh::view::addAlias(a0, a1, a2)); }  }},
  {"view::combine", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::view::combine(a0, a1)); } else { (um2::gmsh::view::combine(a0, a1)); }  }},
  {"view::combine", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::view::combine(a0, a1, a2)); } else { (um2::gmsh::view::combine(a0, a1, a2)); }  }},
  {"view::combine", 4, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<bool>(2); auto a3 = g.make<bool>(3); if (direct) { (::gmsh::view::combine(a0, a1, a2, a3)); } else { (um2::gmsh::view::combine(a0, a1, a2, a3)); }  }},
  {"view::probe", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5)); } g.see(a4); g.see(a5); }},
  {"view::probe", 7, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6)); } g.see(a4); g.see(a5); }},
  {"view::probe", 8, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7)); } g.see(a4); g.see(a5); }},
  {"view::probe", 9, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8)); } g.see(a4); g.see(a5); }},
  {"view::probe", 10, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); auto a9 = g.make<double>(9); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9)); } g.see(a4); g.see(a5); }},
  {"view::probe", 11, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); auto a9 = g.make<double>(9); auto a10 = g.make<std::vector<double>>(10); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10)); } g.see(a4); g.see(a5); }},
  {"view::probe", 12, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); auto a9 = g.make<double>(9); auto a10 = g.make<std::vector<double>>(10); auto a11 = g.make<std::vector<double>>(11); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11)); } g.see(a4); g.see(a5); }},
  {"view::probe", 13, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); auto a9 = g.make<double>(9); auto a10 = g.make<std::vector<double>>(10); auto a11 = g.make<std::vector<double>>(11); auto a12 = g.make<std::vector<double>>(12); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12)); } g.see(a4); g.see(a5); }},
  {"view::probe", 14, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<double>(1); auto a2 = g.make<double>(2); auto a3 = g.make<double>(3); auto a4 = g.make<std::vector<double>>(4); auto a5 = g.make<double>(5); auto a6 = g.make<int>(6); auto a7 = g.make<int>(7); auto a8 = g.make<bool>(8); auto a9 = g.make<double>(9); auto a10 = g.make<std::vector<double>>(10); auto a11 = g.make<std::vector<double>>(11); auto a12 = g.make<std::vector<double>>(12); auto a13 = g.make<int>(13); if (direct) { (::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13)); } else { (um2::gmsh::view::probe(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13)); } g.see(a4); g.see(a5); }},
  {"view::write", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::view::write(a0, a1)); } else { (um2::gmsh::view::write(a0, a1)); }  }},
  {"view::write", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<bool>(2); if (direct) { (::gmsh::view::write(a0, a1, a2)); } else { (um2::gmsh::view::write(a0, a1, a2)); }  }},
  {"view::setVisibilityPerWindow", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::view::setVisibilityPerWindow(a0, a1)); } else { (um2::gmsh::view::setVisibilityPerWindow(a0, a1)); }  }},
  {"view::setVisibilityPerWindow", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); auto a2 = g.make<int>(2); if (direct) { (::gmsh::view::setVisibilityPerWindow(a0, a1, a2)); } else { (um2::gmsh::view::setVisibilityPerWindow(a0, a1, a2)); }  }},
  {"view::option::setNumber", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::view::option::setNumber(a0, a1, a2)); } else { (um2::gmsh::view::option::setNumber(a0, a1, a2)); }  }},
  {"view::option::getNumber", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::view::option::getNumber(a0, a1, a2)); } else { (um2::gmsh::view::option::getNumber(a0, a1, a2)); } g.see(a2); }},
  {"view::option::setString", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::view::option::setString(a0, a1, a2)); } else { (um2::gmsh::view::option::setString(a0, a1, a2)); }  }},
  {"view::option::getString", 3, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::view::option::getString(a0, a1, a2)); } else { (um2::gmsh::view::option::getString(a0, a1, a2)); } g.see(a2); }},
  {"view::option::setColor", 5, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); if (direct) { (::gmsh::view::option::setColor(a0, a1, a2, a3, a4)); } else { (um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4)); }  }},
  {"view::option::setColor", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::option::setColor(a0, a1, a2, a3, a4, a5)); }  }},
  {"view::option::getColor", 6, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<int>(2); auto a3 = g.make<int>(3); auto a4 = g.make<int>(4); auto a5 = g.make<int>(5); if (direct) { (::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5)); } else { (um2::gmsh::view::option::getColor(a0, a1, a2, a3, a4, a5)); } g.see(a2); g.see(a3); g.see(a4); g.see(a5); }},
  {"view::option::copy", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::view::option::copy(a0, a1)); } else { (um2::gmsh::view::option::copy(a0, a1)); }  }},
  {"plugin::setNumber", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<double>(2); if (direct) { (::gmsh::plugin::setNumber(a0, a1, a2)); } else { (um2::gmsh::plugin::setNumber(a0, a1, a2)); }  }},
  {"plugin::setString", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::plugin::setString(a0, a1, a2)); } else { (um2::gmsh::plugin::setString(a0, a1, a2)); }  }},
  {"plugin::run", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { g.see(::gmsh::plugin::run(a0)); } else { g.see(um2::gmsh::plugin::run(a0)); }  }},
  {"graphics::draw", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::graphics::draw()); } else { (um2::gmsh::graphics::draw()); }  }},
  {"fltk::initialize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::initialize()); } else { (um2::gmsh::fltk::initialize()); }  }},
  {"fltk::finalize", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::finalize()); } else { (um2::gmsh::fltk::finalize()); }  }},
  {"fltk::wait", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::wait()); } else { (um2::gmsh::fltk::wait()); }  }},
  {"fltk::wait", 1, [](Gen & g, bool direct) { auto a0 = g.make<double>(0); if (direct) { (::gmsh::fltk::wait(a0)); } else { (um2::gmsh::fltk::wait(a0)); }  }},
  {"fltk::update", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::update()); } else { (um2::gmsh::fltk::update()); }  }},
  {"fltk::awake", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::awake()); } else { (um2::gmsh::fltk::awake()); }  }},
  {"fltk::awake", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::fltk::awake(a0)); } else { (um2::gmsh::fltk::awake(a0)); }  }},
  {"fltk::lock", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::lock()); } else { (um2::gmsh::fltk::lock()); }  }},
  {"fltk::unlock", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::unlock()); } else { (um2::gmsh::fltk::unlock()); }  }},
  {"fltk::run", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::run()); } else { (um2::gmsh::fltk::run()); }  }},
  {"fltk::isAvailable", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::fltk::isAvailable()); } else { g.see(um2::gmsh::fltk::isAvailable()); }  }},
  {"fltk::selectEntities", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); if (direct) { g.see(::gmsh::fltk::selectEntities(a0)); } else { g.see(um2::gmsh::fltk::selectEntities(a0)); } g.see(a0); }},
  {"fltk::selectEntities", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::pair<int,int>>>(0); auto a1 = g.make<int>(1); if (direct) { g.see(::gmsh::fltk::selectEntities(a0, a1)); } else { g.see(um2::gmsh::fltk::selectEntities(a0, a1)); } g.see(a0); }},
  {"fltk::selectElements", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::size_t>>(0); if (direct) { g.see(::gmsh::fltk::selectElements(a0)); } else { g.see(um2::gmsh::fltk::selectElements(a0)); } g.see(a0); }},
  {"fltk::selectViews", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<int>>(0); if (direct) { g.see(::gmsh::fltk::selectViews(a0)); } else { g.see(um2::gmsh::fltk::selectViews(a0)); } g.see(a0); }},
  {"fltk::splitCurrentWindow", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::splitCurrentWindow()); } else { (um2::gmsh::fltk::splitCurrentWindow()); }  }},
  {"fltk::splitCurrentWindow", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::fltk::splitCurrentWindow(a0)); } else { (um2::gmsh::fltk::splitCurrentWindow(a0)); }  }},
  {"fltk::splitCurrentWindow", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<double>(1); if (direct) { (::gmsh::fltk::splitCurrentWindow(a0, a1)); } else { (um2::gmsh::fltk::splitCurrentWindow(a0, a1)); }  }},
  {"fltk::setCurrentWindow", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::fltk::setCurrentWindow()); } else { (um2::gmsh::fltk::setCurrentWindow()); }  }},
  {"fltk::setCurrentWindow", 1, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); if (direct) { (::gmsh::fltk::setCurrentWindow(a0)); } else { (um2::gmsh::fltk::setCurrentWindow(a0)); }  }},
  {"fltk::setStatusMessage", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::fltk::setStatusMessage(a0)); } else { (um2::gmsh::fltk::setStatusMessage(a0)); }  }},
  {"fltk::setStatusMessage", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<bool>(1); if (direct) { (::gmsh::fltk::setStatusMessage(a0, a1)); } else { (um2::gmsh::fltk::setStatusMessage(a0, a1)); }  }},
  {"fltk::showContextWindow", 2, [](Gen & g, bool direct) { auto a0 = g.make<int>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::fltk::showContextWindow(a0, a1)); } else { (um2::gmsh::fltk::showContextWindow(a0, a1)); }  }},
  {"fltk::openTreeItem", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::fltk::openTreeItem(a0)); } else { (um2::gmsh::fltk::openTreeItem(a0)); }  }},
  {"fltk::closeTreeItem", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::fltk::closeTreeItem(a0)); } else { (um2::gmsh::fltk::closeTreeItem(a0)); }  }},
  {"parser::getNames", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); if (direct) { (::gmsh::parser::getNames(a0)); } else { (um2::gmsh::parser::getNames(a0)); } g.see(a0); }},
  {"parser::getNames", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::parser::getNames(a0, a1)); } else { (um2::gmsh::parser::getNames(a0, a1)); } g.see(a0); }},
  {"parser::setNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::parser::setNumber(a0, a1)); } else { (um2::gmsh::parser::setNumber(a0, a1)); }  }},
  {"parser::setString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::string>>(1); if (direct) { (::gmsh::parser::setString(a0, a1)); } else { (um2::gmsh::parser::setString(a0, a1)); }  }},
  {"parser::getNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::parser::getNumber(a0, a1)); } else { (um2::gmsh::parser::getNumber(a0, a1)); } g.see(a1); }},
  {"parser::getString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::string>>(1); if (direct) { (::gmsh::parser::getString(a0, a1)); } else { (um2::gmsh::parser::getString(a0, a1)); } g.see(a1); }},
  {"parser::clear", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::parser::clear()); } else { (um2::gmsh::parser::clear()); }  }},
  {"parser::clear", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::parser::clear(a0)); } else { (um2::gmsh::parser::clear(a0)); }  }},
  {"parser::parse", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::parser::parse(a0)); } else { (um2::gmsh::parser::parse(a0)); }  }},
  {"onelab::set", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::onelab::set(a0)); } else { (um2::gmsh::onelab::set(a0)); }  }},
  {"onelab::set", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::onelab::set(a0, a1)); } else { (um2::gmsh::onelab::set(a0, a1)); }  }},
  {"onelab::get", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::onelab::get(a0)); } else { (um2::gmsh::onelab::get(a0)); } g.see(a0); }},
  {"onelab::get", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::onelab::get(a0, a1)); } else { (um2::gmsh::onelab::get(a0, a1)); } g.see(a0); }},
  {"onelab::get", 3, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); auto a2 = g.make<std::string>(2); if (direct) { (::gmsh::onelab::get(a0, a1, a2)); } else { (um2::gmsh::onelab::get(a0, a1, a2)); } g.see(a0); }},
  {"onelab::getNames", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); if (direct) { (::gmsh::onelab::getNames(a0)); } else { (um2::gmsh::onelab::getNames(a0)); } g.see(a0); }},
  {"onelab::getNames", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::onelab::getNames(a0, a1)); } else { (um2::gmsh::onelab::getNames(a0, a1)); } g.see(a0); }},
  {"onelab::setNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::onelab::setNumber(a0, a1)); } else { (um2::gmsh::onelab::setNumber(a0, a1)); }  }},
  {"onelab::setString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::string>>(1); if (direct) { (::gmsh::onelab::setString(a0, a1)); } else { (um2::gmsh::onelab::setString(a0, a1)); }  }},
  {"onelab::getNumber", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<double>>(1); if (direct) { (::gmsh::onelab::getNumber(a0, a1)); } else { (um2::gmsh::onelab::getNumber(a0, a1)); } g.see(a1); }},
  {"onelab::getString", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::vector<std::string>>(1); if (direct) { (::gmsh::onelab::getString(a0, a1)); } else { (um2::gmsh::onelab::getString(a0, a1)); } g.see(a1); }},
  {"onelab::getChanged", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { g.see(::gmsh::onelab::getChanged(a0)); } else { g.see(um2::gmsh::onelab::getChanged(a0)); }  }},
  {"onelab::setChanged", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<int>(1); if (direct) { (::gmsh::onelab::setChanged(a0, a1)); } else { (um2::gmsh::onelab::setChanged(a0, a1)); }  }},
  {"onelab::clear", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::onelab::clear()); } else { (um2::gmsh::onelab::clear()); }  }},
  {"onelab::clear", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::onelab::clear(a0)); } else { (um2::gmsh::onelab::clear(a0)); }  }},
  {"onelab::run", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::onelab::run()); } else { (um2::gmsh::onelab::run()); }  }},
  {"onelab::run", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::onelab::run(a0)); } else { (um2::gmsh::onelab::run(a0)); }  }},
  {"onelab::run", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::onelab::run(a0, a1)); } else { (um2::gmsh::onelab::run(a0, a1)); }  }},
  {"logger::write", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::logger::write(a0)); } else { (um2::gmsh::logger::write(a0)); }  }},
  {"logger::write", 2, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); auto a1 = g.make<std::string>(1); if (direct) { (::gmsh::logger::write(a0, a1)); } else { (um2::gmsh::logger::write(a0, a1)); }  }},
  {"logger::start", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::logger::start()); } else { (um2::gmsh::logger::start()); }  }},
  {"logger::get", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::vector<std::string>>(0); if (direct) { (::gmsh::logger::get(a0)); } else { (um2::gmsh::logger::get(a0)); } g.see(a0); }},
  {"logger::stop", 0, [](Gen & g, bool direct) {  if (direct) { (::gmsh::logger::stop()); } else { (um2::gmsh::logger::stop()); }  }},
  {"logger::getWallTime", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::logger::getWallTime()); } else { g.see(um2::gmsh::logger::getWallTime()); }  }},
  {"logger::getCpuTime", 0, [](Gen & g, bool direct) {  if (direct) { g.see(::gmsh::logger::getCpuTime()); } else { g.see(um2::gmsh::logger::getCpuTime()); }  }},
  {"logger::getLastError", 1, [](Gen & g, bool direct) { auto a0 = g.make<std::string>(0); if (direct) { (::gmsh::logger::getLastError(a0)); } else { (um2::gmsh::logger::getLastError(a0)); } g.see(a0); }},
};
