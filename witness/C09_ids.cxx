// C09: identifiers of the function types in existing model files.
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/constant.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
using namespace opengm; namespace le=opengm::functions::learnable;
typedef unsigned int U; typedef unsigned char C;
// every value, index and label type has the same identifier
#define ID(n,...) static_assert(FunctionRegistration<__VA_ARGS__ >::Id==(n), "identifier of " #__VA_ARGS__)
#define ID3(n,F) ID(n,F<double,size_t,size_t>); ID(n,F<float,U,C>); ID(n,F<long,U,size_t>)
template<class T,class I,class L> using Sp=SparseFunction<T,I,L,std::map<size_t,T> >;
ID3(16000,ExplicitFunction); ID3(16002,AbsoluteDifferenceFunction); ID3(16003,TruncatedAbsoluteDifferenceFunction); ID3(16004,SquaredDifferenceFunction); ID3(16005,TruncatedSquaredDifferenceFunction);
ID3(16001,Sp); ID(16001,SparseFunction<double,size_t,size_t>);
ID3(16006,PottsFunction); ID3(16007,PottsNFunction); ID3(16008,ConstantFunction); ID3(16011,PottsGFunction); ID3(16033,FoEFunction);
#define SS(T,N,S) StaticSingleSiteFunction<T,N,S>
ID(16009,SS(double,2,StackStorage)); ID(16009,SS(float,3,HeapStorage)); ID(16010,DynamicSingleSiteFunction<double>); ID(16010,DynamicSingleSiteFunction<float>);
ID3(16165,le::LPotts); ID3(16166,le::LUnary); ID3(16167,le::LWeightedSumOfFunctions);
ID3(15999,LinearConstraintFunction); ID3(15998,LabelOrderFunction); ID3(15997,NumLabelsLimitationFunction); ID3(15996,SumConstraintFunction); ID3(15995,LabelCostFunction);
// the identifier that the model uses at run time is the registered one, at every position of the type list
typedef meta::TypeListGenerator<PottsFunction<double>,ExplicitFunction<double>,SquaredDifferenceFunction<double>,ConstantFunction<double,size_t,size_t> >::type TL;
static_assert(FUNCTION_TYPE_ID_OFFSET==16000,"offset of the identifiers");
